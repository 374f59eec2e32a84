const Node struct {
    label string
    val int
    kids [int]
}

const Tree struct {
    v int
    left ^Tree
    right ^Tree
}

do k_strings(x int) -> string {
    mut s string = "item-${x}"
    mut u string = strings.to_upper(s)
    mut r string = strings.reverse(u)
    mut parts = strings.split("a${x},b${x * 3},c${x + 7}", ",")
    mut j string = strings.join(parts, "|")
    mut p string = strings.repeat("x${x % 10}", 4)
    mut q string = strings.replace(j, "b", "[B]")
    mut t string = strings.trim("   ${q}  ")
    return "${u};${r};${t};${p};${strings.slice(r, 0, 3)};${len(parts)}"
}

do k_arrays(x int) -> string {
    mut a [int] = {5, 3, 9, 1}
    for i in range(0, 6) {
        arrays.append(a, (x * (i + 3)) % 17)
    }
    arrays.sort_asc(a)
    mut out string = ""
    for_each v in a {
        out = "${out}${v},"
    }
    mut b [string] = {"s${x}"}
    for i in range(0, 5) {
        mut tmp string = "n${x}-${i}"
        arrays.append(b, tmp)
    }
    b = arrays.reverse(b)
    return "${out}${strings.join(b, "/")} sum=${arrays.get_sum(a)}"
}

do k_maps(x int) -> string {
    mut m map[string:int] = {"zero": 0}
    for i in range(0, 9) {
        m["k${x}_${i}"] = x * i
    }
    m["zero"] = x
    mut tot int = 0
    mut out string = ""
    for i in range(0, 9) {
        tot += m["k${x}_${i}"]
        out = "${out}${m["k${x}_${i}"]} "
    }
    mut ks = maps.get_keys(m)
    return "${out}tot=${tot} n=${len(ks)} z=${m["zero"]}"
}

do mk_node(x int, d int) -> Node {
    mut n = Node{label: "node${x}", val: x * d, kids: {x, d}}
    arrays.append(n.kids, x + d)
    return n
}

do k_structs(x int) -> string {
    mut n = mk_node(x, 2)
    mut out string = "${n.label}:${n.val}"
    for i in range(0, 5) {
        mut nd = mk_node(x + i, i)
        out = "${out} ${nd.label}=${nd.val}(${nd.kids[0]},${nd.kids[1]},${nd.kids[2]})"
    }
    return out
}

do insert(t ^Tree, v int) {
    if v < t^.v {
        if t^.left == nil {
            mut n = new(Tree)
            n^.v = v
            t^.left = n
        } otherwise {
            insert(t^.left, v)
        }
    } otherwise {
        if t^.right == nil {
            mut n = new(Tree)
            n^.v = v
            t^.right = n
        } otherwise {
            insert(t^.right, v)
        }
    }
}

do walk(t ^Tree) -> string {
    mut l string = ""
    mut r string = ""
    if t^.left != nil {
        l = walk(t^.left)
    }
    if t^.right != nil {
        r = walk(t^.right)
    }
    return "${l}${t^.v} ${r}"
}

do k_new(x int) -> string {
    mut root = new(Tree)
    root^.v = x % 11
    for i in range(1, 8) {
        insert(root, (x * i * 7 + i) % 23)
    }
    return walk(root)
}

do k_time(x int) -> string {
    mut t int = 1000000000 + x * 98765
    mut a string = time.format("%Y-%m-%d %H:%M:%S", t)
    mut b string = time.to_iso(t)
    return "${a} ${b} ${time.year(t)}/${time.month(t)}/${time.day(t)} ${time.date(t)} ${time.to_clock(t)}"
}

do k_json(x int) -> string {
    mut m map[string:int] = {"a": x}
    m["b"] = x * 2
    mut arr [int] = {x, x + 1, x + 2}
    mut e string = json.encode(arr)
    mut f string = json.encode("q\"${x}\n")
    mut v bool = json.is_valid("{\"k${x}\": [1, 2, {\"z\": ${x}}]}")
    mut w bool = json.is_valid("{\"k${x}\": [1, 2, {\"z\": ${x}]}")
    return "${e} ${f} ${v} ${w} ${json.encode(m)}"
}

do k_regex(x int) -> string {
    mut s string = "id${x} val${x * 3} end${x + 1}"
    mut f, _ = regex.find_all("[0-9]+", s)
    mut r, _ = regex.replace("[a-z]+", s, "<w>")
    mut sp, _ = regex.split("[ ]+", s)
    return "${strings.join(f, ",")} ${r} ${strings.join(sp, "+")}"
}

do k_enc(x int) -> string {
    mut s string = "data ${x}/${x * x}&y=?"
    mut b string = encoding.base64_encode(s)
    mut h string = encoding.hex_encode(s)
    mut u string = encoding.url_encode(s)
    mut sh string = crypto.sha256(s)
    mut md string = crypto.md5(s)
    return "${b} ${h} ${u} ${sh} ${md} ${encoding.base64_decode(b)} ${encoding.url_decode(u)}"
}

do k_num(x int) -> string {
    mut a string = strconv.from_int(x * 12345)
    mut f string = strconv.from_float(2.5 * cast(x, float))
    mut h string = fmt.int_to_hex(x * 255)
    mut fx string = fmt.float_fixed(3.14159 * cast(x, float), 3)
    mut p string = fmt.pad_left(a, 12, '0')
    mut big i128 = 170141183460469231731687303715884105
    big = big + cast(x, i128)
    return "${a} ${f} ${h} ${fx} ${p} ${big} ${math.gcd(x * 6, 84)}"
}

do fib(n int) -> int {
    if n < 2 {
        return n
    }
    return fib(n - 1) + fib(n - 2)
}

do k_rec(x int) -> string {
    mut out string = "f"
    for i in range(0, 7) {
        out = "${out}.${fib(i + x % 3)}"
    }
    return out
}

do k_csv(x int) -> string {
    mut rows = csv.parse("a,b${x}\n\"q,${x}\",d\n")
    mut out string = "${len(rows)}"
    for_each row in rows {
        out = "${out}[${strings.join(row, "|")}]"
    }
    return out
}

do k_bytes(x int) -> string {
    mut b = bytes.from_string("bytes ${x}")
    mut e = binary.encode_i64_be(x * 7919)
    return "${bytes.to_hex(b)} ${bytes.to_hex(e)} ${binary.decode_i64_be(e)} ${bytes.to_string(b)}"
}

do split_pair(x int) -> (string, [string]) {
    mut parts [string] = {"p${x}", "q${x * 2}"}
    return "head${x}", parts
}

do k_multi(x int) -> string {
    mut s, p = split_pair(x)
    mut chars = strings.to_chars("ch${x}")
    mut back string = strings.from_chars(chars)
    mut words map[int:string] = {0: s}
    for i in range(1, 6) {
        words[i] = "w${x}.${i}"
    }
    mut out string = ""
    for i in range(0, 6) {
        out = "${out}${words[i]};"
    }
    return "${s} ${strings.join(p, "~")} ${back} ${out}"
}

do kernel(k int, x int) -> string {
    if k == 0 {
        return k_strings(x)
    } or k == 1 {
        return k_arrays(x)
    } or k == 2 {
        return k_maps(x)
    } or k == 3 {
        return k_structs(x)
    } or k == 4 {
        return k_new(x)
    } or k == 5 {
        return k_time(x)
    } or k == 6 {
        return k_json(x)
    } or k == 7 {
        return k_regex(x)
    } or k == 8 {
        return k_enc(x)
    } or k == 9 {
        return k_num(x)
    } or k == 10 {
        return k_rec(x)
    } or k == 11 {
        return k_csv(x)
    } or k == 12 {
        return k_bytes(x)
    }
    return k_multi(x)
}
