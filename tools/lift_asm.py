#!/usr/bin/env python3
"""Lift the runtime's hand-written x86-64 assembly to C in which every memory access goes through the simulator.

The input is the disassembly (objdump) of the assembled object, so the notation used in the source does not matter.
Locked instructions stay indivisible; unlocked read-modify-write instructions become a load, a scheduling point and a
store; plain stores enter the simulated store buffer (x86-TSO).  Anything the lifter does not know makes it give up on
the whole file with exit status 4; the caller reports that."""
import re, subprocess, sys

R64 = ['rax','rcx','rdx','rbx','rsp','rbp','rsi','rdi'] + ['r%d' % i for i in range(8, 16)]
REG = {}
for i, n in enumerate(R64):
    REG[n] = (n, 8, 0)
for n32, n64 in zip(['eax','ecx','edx','ebx','esp','ebp','esi','edi'], R64): REG[n32] = (n64, 4, 0)
for n16, n64 in zip(['ax','cx','dx','bx','sp','bp','si','di'], R64): REG[n16] = (n64, 2, 0)
for n8, n64 in zip(['al','cl','dl','bl','spl','bpl','sil','dil'], R64): REG[n8] = (n64, 1, 0)
for n8, n64 in zip(['ah','ch','dh','bh'], R64): REG[n8] = (n64, 1, 8)
for i in range(8, 16):
    REG['r%dd' % i] = ('r%d' % i, 4, 0); REG['r%dw' % i] = ('r%d' % i, 2, 0); REG['r%db' % i] = ('r%d' % i, 1, 0)
MASK = {1: '0xffull', 2: '0xffffull', 4: '0xffffffffull', 8: '~0ull'}
class Unknown(Exception): pass

def split_ops(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch == '(': depth += 1
        if ch == ')': depth -= 1
        if ch == ',' and depth == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

def addr(op):
    m = re.fullmatch(r'(-?0x[0-9a-f]+|-?\d+)?\((%\w+)?(?:,(%\w+),(\d))?\)', op)
    if not m: raise Unknown('operand ' + op)
    parts = []
    if m.group(2):
        if m.group(2) == '%rip': raise Unknown('rip-relative ' + op)
        parts.append(REG[m.group(2)[1:]][0])
    if m.group(3): parts.append('%s*%s' % (REG[m.group(3)[1:]][0], m.group(4)))
    if m.group(1): parts.append('(u64)(%sll)' % m.group(1))
    return '(' + '+'.join(parts) + ')'

def is_mem(op): return '(' in op
def size_of(ops, suffix, default=None):
    for o in reversed(ops):
        if o.startswith('%'): return REG[o[1:]][1]
    if suffix: return {'b': 1, 'w': 2, 'l': 4, 'q': 8}[suffix]
    if default: return default
    raise Unknown('size')
def rd(op, sz):
    if op.startswith('$'): return '((u64)(%sll) & %s)' % (op[1:] if not op[1:].startswith('0x') else op[1:], MASK[sz])
    if op.startswith('%'):
        n, s, sh = REG[op[1:]]
        return '((%s >> %d) & %s)' % (n, sh, MASK[sz])
    return 'asm_load(%s,%d)' % (addr(op), sz)
def wr(op, sz, val):
    if op.startswith('%'):
        n, s, sh = REG[op[1:]]
        if sz in (8,): return '%s = %s;' % (n, val)
        if sz == 4: return '%s = (u64)(unsigned)(%s);' % (n, val)
        return '%s = (%s & ~(%s << %d)) | (((u64)(%s) & %s) << %d);' % (n, n, MASK[sz], sh, val, MASK[sz], sh)
    return 'asm_store(%s,%s,%d);' % (addr(op), val, sz)
CC = {'e': 'zf', 'z': 'zf', 'ne': '!zf', 'nz': '!zf', 's': 'sf', 'ns': '!sf', 'c': 'cf', 'b': 'cf', 'nae': 'cf', 'ae': '!cf', 'nb': '!cf', 'nc': '!cf',
      'a': '(!cf && !zf)', 'nbe': '(!cf && !zf)', 'be': '(cf || zf)', 'na': '(cf || zf)', 'l': '(sf != of)', 'nge': '(sf != of)', 'ge': '(sf == of)', 'nl': '(sf == of)',
      'g': '(!zf && sf == of)', 'nle': '(!zf && sf == of)', 'le': '(zf || sf != of)', 'ng': '(zf || sf != of)', 'o': 'of', 'no': '!of'}
def alu(name, sz):
    """C for: t2 = dst(t0) OP src(t1), with flags."""
    m = MASK[sz]; top = sz * 8 - 1
    zs = 'zf = ((t2 & %s) == 0); sf = (t2 >> %d) & 1;' % (m, top)
    if name == 'add': return 't2 = (t0 + t1) & %s; %s cf = t2 < t0; of = (~(t0 ^ t1) & (t0 ^ t2)) >> %d & 1;' % (m, zs, top)
    if name in ('sub', 'cmp'): return 't2 = (t0 - t1) & %s; %s cf = t0 < t1; of = ((t0 ^ t1) & (t0 ^ t2)) >> %d & 1;' % (m, zs, top)
    o = {'and': '&', 'test': '&', 'or': '|', 'xor': '^'}[name]
    return 't2 = (t0 %s t1) & %s; %s cf = 0; of = 0;' % (o, m, zs)

def base(mn, names):
    for n in sorted(names, key=len, reverse=True):
        if mn == n: return n, ''
        if mn.startswith(n) and mn[len(n):] in ('b', 'w', 'l', 'q'): return n, mn[len(n):]
    return None, ''

def lift_insn(mn, ops, locked):
    if mn in ('endbr64', 'nop', 'nopw', 'nopl', 'data16', 'xchg') and mn != 'xchg': return ';'
    if mn in ('mfence',): return 'asm_fence();'
    if mn in ('lfence', 'sfence'): return 'asm_pt();'
    if mn == 'pause': return 'asm_pause();'
    if mn in ('ret', 'retq', 'rep ret'): return 'return rax;'
    if mn in ('jmp', 'jmpq'): return 'goto L%s;' % ops[0].split()[0]
    if mn.startswith('j') and mn[1:] in CC: return 'if (%s) goto L%s;' % (CC[mn[1:]], ops[0].split()[0])
    m = re.fullmatch(r'set(\w+)', mn)
    if m and m.group(1) in CC: return wr(ops[0], 1, '(%s)' % CC[m.group(1)])
    m = re.fullmatch(r'cmov(\w+?)([wlq]?)', mn)
    if m and (m.group(1) in CC or m.group(1) + m.group(2) in CC):
        cc = m.group(1) if m.group(1) in CC else m.group(1) + m.group(2)
        sz = size_of(ops, ''); return 't0 = %s; if (%s) { %s }' % (rd(ops[0], sz), CC[cc], wr(ops[1], sz, 't0'))
    m = re.fullmatch(r'mov([zs])([bwl])([wlq])', mn) or (re.fullmatch(r'mov([zs])([bwl])()', mn))
    if mn in ('movslq', 'movsxd'): m = re.fullmatch(r'(s)(l)(q)', 'slq')
    if m and len(ops) == 2:
        s1 = {'b': 1, 'w': 2, 'l': 4}[m.group(2)]; s2 = size_of([ops[1]], m.group(3))
        v = rd(ops[0], s1)
        if m.group(1) == 's': v = '(u64)(long)(%s)(%s)' % ({1: 'signed char', 2: 'short', 4: 'int'}[s1], v)
        return wr(ops[1], s2, v)
    if mn in ('movabs', 'movabsq'): return wr(ops[1], 8, rd(ops[0], 8))
    n, suf = base(mn, ['mov', 'lea', 'add', 'sub', 'and', 'or', 'xor', 'cmp', 'test', 'neg', 'not', 'inc', 'dec', 'xadd', 'cmpxchg', 'xchg', 'push', 'pop', 'shl', 'shr'])
    if n is None: raise Unknown(mn)
    if n == 'push': return 'stk[sp++] = %s;' % rd(ops[0], 8)
    if n == 'pop': return wr(ops[0], 8, 'stk[--sp]')
    sz = size_of(ops, suf)
    if n == 'lea': return wr(ops[1], sz, addr(ops[0]))
    if n == 'mov': return wr(ops[1], sz, rd(ops[0], sz))
    if n in ('cmp', 'test'): return 't0 = %s; t1 = %s; %s' % (rd(ops[1], sz), rd(ops[0], sz), alu(n, sz))
    if n in ('shl', 'shr'):
        c, d = (ops if len(ops) == 2 else ('$0x1', ops[0]))
        if is_mem(d): raise Unknown(mn)
        return 't0 = %s; t1 = %s & %d; if (t1) { t2 = (t0 %s t1) & %s; zf = t2 == 0; sf = t2 >> %d & 1; } else t2 = t0; %s' % (rd(d, sz), rd(c, 1), 63 if sz == 8 else 31, '<<' if n == 'shl' else '>>', MASK[sz], sz * 8 - 1, wr(d, sz, 't2'))
    def rmw(dst, body):
        """body computes t2 from t0; dst may be memory."""
        if not is_mem(dst): return 't0 = %s; %s %s' % (rd(dst, sz), body, wr(dst, sz, 't2'))
        if locked: return 'ad = %s; asm_lock_begin(); asm_lock_check(ad,%d); t0 = raw_load(ad,%d); %s raw_store(ad,t2,%d);' % (addr(dst), sz, sz, body, sz)
        return 'ad = %s; t0 = asm_load(ad,%d); %s asm_pt(); asm_store(ad,t2,%d);' % (addr(dst), sz, body, sz)
    if n in ('add', 'sub', 'and', 'or', 'xor'):
        if is_mem(ops[0]): return 't1 = %s; ' % rd(ops[0], sz) + rmw(ops[1], alu(n, sz))
        return rmw(ops[1], 't1 = %s; ' % rd(ops[0], sz) + alu(n, sz))
    if n == 'neg': return rmw(ops[0], 't1 = t0; t2 = (0 - t1) & %s; zf = t2 == 0; sf = t2 >> %d & 1; cf = t1 != 0; of = (t1 & t2) >> %d & 1;' % (MASK[sz], sz * 8 - 1, sz * 8 - 1))
    if n == 'not': return rmw(ops[0], 't2 = ~t0 & %s;' % MASK[sz])
    if n in ('inc', 'dec'): return rmw(ops[0], 't1 = 1; { int sc = cf; %s cf = sc; }' % alu('add' if n == 'inc' else 'sub', sz))
    if n == 'xchg':
        a, b = ops
        if is_mem(a): a, b = b, a
        if not is_mem(b): return 't0 = %s; t1 = %s; %s %s' % (rd(a, sz), rd(b, sz), wr(a, sz, 't1'), wr(b, sz, 't0'))
        return 'ad = %s; t1 = %s; asm_lock_begin(); asm_lock_check(ad,%d); t0 = raw_load(ad,%d); raw_store(ad,t1,%d); %s' % (addr(b), rd(a, sz), sz, sz, sz, wr(a, sz, 't0'))
    if n == 'xadd':
        a, b = ops
        return rmw(b, 't1 = %s; t3 = t0; %s %s' % (rd(a, sz), alu('add', sz), wr(a, sz, 't3'))) if is_mem(b) else '_unsupported_'
    if n == 'cmpxchg':
        a, b = ops
        core = 't4 = rax & %s; t1 = t0; { u64 k0 = t0; t0 = t4; t1 = k0; %s t0 = k0; } ' % (MASK[sz], alu('cmp', sz))
        if not is_mem(b): raise Unknown('cmpxchg reg')
        if locked: return 'ad = %s; asm_lock_begin(); asm_lock_check(ad,%d); t0 = raw_load(ad,%d); %s if (zf) raw_store(ad,%s,%d); else { %s }' % (addr(b), sz, sz, core, rd(a, sz), sz, wr('%' + {8: 'rax', 4: 'eax', 2: 'ax', 1: 'al'}[sz], sz, 't0'))
        return 'ad = %s; t0 = asm_load(ad,%d); %s asm_pt(); if (zf) asm_store(ad,%s,%d); else { asm_store(ad,t0,%d); %s }' % (addr(b), sz, core, rd(a, sz), sz, sz, wr('%' + {8: 'rax', 4: 'eax', 2: 'ax', 1: 'al'}[sz], sz, 't0'))
    raise Unknown(mn)

def main():
    obj, out = sys.argv[1], sys.argv[2]
    sec = subprocess.run(['objdump', '-h', obj], capture_output=True, text=True).stdout
    for l in sec.splitlines():
        m = re.match(r'\s*\d+ (\.(?:data|bss|rodata)\S*)\s+([0-9a-f]+)', l)
        if m and int(m.group(2), 16): raise Unknown('data section in assembly')
    syms = {}
    for l in subprocess.run(['nm', obj], capture_output=True, text=True, check=True).stdout.splitlines():
        p = l.split()
        if len(p) == 3 and p[1] in 'Tt': syms.setdefault(int(p[0], 16), []).append((p[2], p[1]))
        if len(p) == 2 and p[0] == 'U': raise Unknown('external reference ' + p[1])
    dis = subprocess.run(['objdump', '-d', '--no-show-raw-insn', '-M', 'att,suffix', obj], capture_output=True, text=True, check=True).stdout
    insns = []
    for l in dis.splitlines():
        m = re.match(r'\s*([0-9a-f]+):\s+(.*?)\s*(#.*)?$', l)
        if not m: continue
        insns.append((int(m.group(1), 16), m.group(2)))
    globs = sorted(a for a, v in syms.items() if any(t == 'T' for _, t in v))
    if not globs: raise Unknown('no global functions')
    c = ['typedef unsigned long u64;', 'void asm_pt(void); u64 asm_load(u64,int); void asm_store(u64,u64,int); void asm_fence(void); void asm_lock_begin(void); void asm_lock_check(u64,int); void asm_pause(void);',
         'static inline u64 raw_load(u64 a,int s){ switch(s){case 1:return *(unsigned char*)a;case 2:return *(unsigned short*)a;case 4:return *(unsigned*)a;default:return *(u64*)a;} }',
         'static inline void raw_store(u64 a,u64 v,int s){ switch(s){case 1:*(unsigned char*)a=v;break;case 2:*(unsigned short*)a=v;break;case 4:*(unsigned*)a=v;break;default:*(u64*)a=v;} }']
    for gi, g in enumerate(globs):
        end = globs[gi + 1] if gi + 1 < len(globs) else 1 << 60
        body = [(a, t) for a, t in insns if g <= a < end]
        addrs = {a for a, _ in body}
        names = [n for n, t in syms[g] if t == 'T']
        lines = []
        for a, t in body:
            t = re.sub(r'<[^>]*>', '', t).strip()
            locked = False
            while True:
                p = t.split(None, 1)
                if p[0] in ('lock', 'rep', 'repz', 'bnd', 'notrack', 'data16', 'cs'):
                    if p[0] == 'lock': locked = True
                    if len(p) == 1: t = ''; break
                    t = p[1]; continue
                break
            if not t: continue
            p = t.split(None, 1); mn = p[0]; ops = split_ops(p[1]) if len(p) > 1 else []
            ops = [re.sub(r'^%[defgs]s:', '', o) for o in ops]
            s = lift_insn(mn, ops, locked)
            for m in re.finditer(r'goto L([0-9a-f]+);', s):
                if int(m.group(1), 16) not in addrs: raise Unknown('jump out of function: ' + t)
            lines.append('  L%x: %s /* %s */' % (a, s, ('lock ' if locked else '') + t))
        c.append('u64 %s(u64 rdi,u64 rsi,u64 rdx,u64 rcx,u64 r8,u64 r9) {\n  u64 rax=0,rbx=0,rbp=0,r10=0,r11=0,r12=0,r13=0,r14=0,r15=0,t0=0,t1=0,t2=0,t3=0,t4=0,ad=0,stk[64]; int sp=0,zf=0,sf=0,cf=0,of=0; (void)sp;(void)stk;\n%s\n  return rax;\n}' % (names[0], '\n'.join(lines)))
        for n in names[1:]:
            if n.startswith('_') and n[1:] in names: continue
            c.append('u64 %s(u64 a,u64 b,u64 c,u64 d,u64 e,u64 f) { return %s(a,b,c,d,e,f); }' % (n, names[0]))
    open(out, 'w').write('\n'.join(c) + '\n')
if __name__ == '__main__':
    try: main()
    except Unknown as e:
        sys.stderr.write('lift_asm: %s\n' % e); sys.exit(4)
