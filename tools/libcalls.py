"""Calls into libraries that are not instrumented, described as memory accesses for the race detector.

describe(symbols) maps an imported function to the access each of its first six arguments makes; the build redirects the
calls of the instrumented objects to small stubs that report these accesses before they go on to the function.
  w/r object header written/read (8 bytes)   S/s string written/read (16)   o stream used (its ios part, written)
  n/p tree node written/read (32)            D/d range of rdx bytes written/read"""
import re, subprocess

FLINT = "fmpz fmpz_vec fmpz_poly fmpz_mod_poly nmod_poly nmod_poly_factor nmod_mat fq fq_nmod fq_nmod_poly fq_nmod_poly_factor fq_nmod_mat fq_zech fq_zech_poly fq_zech_poly_factor fq_poly".split()
FTYPE = re.compile(r"^(const\s+)?(fmpz|mpz|nmod_poly|nmod_mat|nmod_poly_factor|fmpz_poly|fmpz_factor|n_factor|fq|fq_nmod|fq_zech)(_poly|_mat|_poly_factor|_ctx|_struct)?(_t|_struct\s*\*|\s*\*)(\s*\w+)?$|^(const\s+)?(flint_rand_t)\s*\w*$")
STR = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >"
SMETH = set("_M_append _M_assign _M_replace _M_replace_aux _M_replace_cold _M_mutate _M_erase _M_construct _M_dispose basic_string ~basic_string reserve resize push_back pop_back append assign insert erase clear swap shrink_to_fit compare find rfind find_first_of find_last_of find_first_not_of find_last_not_of operator= operator+= c_str data size length empty at operator[]".split())
STREAM = re.compile(r"^std::(?:__cxx11::)?basic_([io]|io)(?:string|f)?stream<char, std::char_traits<char>(?:, std::allocator<char>)? >::(operator<<|operator>>|put|get|ignore|peek|flush|write|read|unget|putback|seekg|seekp|_M_insert<.*>|_M_extract<.*>|open|close)\(")
SFREE = re.compile(r"^std::basic_[io]stream<char, std::char_traits<char> >& std::(__ostream_insert|getline|ws|endl|ends|flush|operator<< ?|operator>> ?|basic_[io]stream<char, std::char_traits<char> >::_M_(insert|extract))<")

def split(a):
    out, depth, cur = [], 0, ""
    for c in a:
        depth += (c in "<(") - (c in ">)")
        if c == "," and not depth:
            out.append(cur.strip()); cur = ""
        else:
            cur += c
    return out + [cur.strip()] if cur.strip() else out

def flint_text():
    src = "".join("#if __has_include(<flint/%s.h>)\n#include <flint/%s.h>\n#endif\n" % (h, h) for h in FLINT)
    t = subprocess.run(["gcc", "-E", "-P", "-x", "c", "-"], input=src, text=True, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout
    return {m.group(2): (m.group(1), m.group(3)) for m in re.finditer(r"(?:^|[;}])\s*([\w\s*]+?)\b(\w+)\s*\(([^()]*)\)\s*(?=;)", t, re.M)}

def flint_one(ret, args):
    if "struct" in ret or "_t " in ret.replace("int64_t ", ""):
        return None
    d = ""
    for a in split(re.sub(r"\s+", " ", args)):
        if re.match(r"^(nmod_t|double|float|struct)\b", a) or "..." in a:
            return None
        d += "." if not FTYPE.match(a) else "r" if a.startswith("const") else "w"
    return d[:6] if d.strip(".") else None

def cxx_one(n):
    if n.startswith(STR + "::"):
        m = re.match(r"([~\w]+[=+\[\]]*)\(", n[len(STR) + 2:])
        if not m or m.group(1) not in SMETH:
            return None
        rest = n[len(STR) + 2 + m.end():]
        d = "s" if n.endswith(" const") else "S"
        for a in split(rest[:rest.rindex(")")]):
            d += "s" if a == STR + " const&" else "S" if a in (STR + "&", STR + "&&") else "."
        return d[:6]
    if n.startswith("std::_Rb_tree_insert_and_rebalance("):
        return ".nnn"
    if n.startswith("std::_Rb_tree_rebalance_for_erase("):
        return "nn"
    if re.match(r"std::_Rb_tree_(in|de)crement\(", n):
        return "p"
    if re.match(r"std::__detail::_List_node_base::_M_(hook|transfer|unhook|swap|reverse)", n):
        return "w"
    if STREAM.match(n):
        return "o"
    if SFREE.match(n):
        return "oS" if "::getline<" in n or (">> " in n and STR + "&" in n) else "o"
    if n.startswith("std::basic_ios<char, std::char_traits<char> >::clear("):
        return "w"
    return None

def describe(syms):
    fl = flint_text()
    dem = subprocess.run(["c++filt"], input="\n".join(syms), text=True, stdout=subprocess.PIPE).stdout.split("\n")
    out = {}
    for s, n in zip(syms, dem):
        if s in fl:
            d = flint_one(*fl[s])
        elif s in ("memcpy", "memmove"):
            d = "Dd"
        elif s == "memset":
            d = "D"
        elif s in ("memcmp", "bcmp"):
            d = "dd"
        elif s.startswith("_Z"):
            d = cxx_one(n)
        else:
            d = None
        if d and d.strip("."):
            out[s] = d
    return out

def stubs(desc):
    """assembly: report the arguments when the race detector is on, then go to the function with everything as it was"""
    a = ["\t.text"]
    for i, (s, d) in enumerate(sorted(desc.items())):
        a += ["\t.globl simw_%s" % s, "\t.hidden simw_%s" % s, "\t.type simw_%s, @function" % s, "simw_%s:" % s,
              "\tmovq sim_libcall_on@GOTPCREL(%rip), %r11", "\tcmpb $0, (%r11)", "\tje 1f",
              "\tleaq .Ld%d(%%rip), %%r11" % i, "\tcall .Lreport", "1:\tjmp %s@PLT" % s, "\t.size simw_%s, .-simw_%s" % (s, s)]
    a += [".Lreport:", "\tpushq %rax", "\tpushq %r9", "\tpushq %r8", "\tpushq %rcx", "\tpushq %rdx", "\tpushq %rsi", "\tpushq %rdi", "\tpushq %r10",
          "\tsubq $128, %rsp"] + ["\tmovups %%xmm%d, %d(%%rsp)" % (k, 16 * k) for k in range(8)] + [
          "\tmovq %r11, %rdi", "\tleaq 136(%rsp), %rsi", "\tmovq 200(%rsp), %rdx", "\tcall sim_libcall@PLT"] + [
          "\tmovups %d(%%rsp), %%xmm%d" % (16 * k, k) for k in range(8)] + ["\taddq $128, %rsp",
          "\tpopq %r10", "\tpopq %rdi", "\tpopq %rsi", "\tpopq %rdx", "\tpopq %rcx", "\tpopq %r8", "\tpopq %r9", "\tpopq %rax", "\tret"]
    a += ["\t.section .rodata"] + [".Ld%d:\t.string \"%s\"" % (i, d) for i, (s, d) in enumerate(sorted(desc.items()))]
    a += ["\t.section .note.GNU-stack,\"\",@progbits"]
    return "\n".join(a) + "\n"

if __name__ == "__main__":
    import sys
    syms = [l.split()[-1].split("@")[0] for l in sys.stdin]
    dd = describe(syms)
    for k, v in sorted(dd.items()):
        print(v, subprocess.run(["c++filt", k], text=True, stdout=subprocess.PIPE).stdout.strip()[:110])
