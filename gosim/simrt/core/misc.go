package simcore

import "testing/fstest"

// EmbedFS stands for embed.FS with content chosen by the simulation.
type EmbedFS = fstest.MapFS

func NewEmbedFS() EmbedFS {
	m := fstest.MapFS{}
	p := CurProc()
	if p == nil {
		return m
	}
	for k, v := range p.Embed {
		m[k] = &fstest.MapFile{Data: v, Mode: 0o444}
	}
	return m
}
