#!/usr/bin/env python3
"""Writes harness/sched_wrap.inc and harness/sched_wrap.txt (linker options) from NTL's header lip.h: every function of NTL's integer layer
reports what it reads and writes to the race detector before the original runs.  Run by hand; the output is committed."""
import re, subprocess, os
here = os.path.dirname(os.path.abspath(__file__))
h = open("/usr/include/NTL/lip.h").read()
names = {}
for s in sorted(set(re.findall(r" T (\S*_ntl_g\S*)", subprocess.run("nm /usr/lib/x86_64-linux-gnu/libntl.a 2>/dev/null", shell=True, capture_output=True, text=True).stdout))):
    d = subprocess.run(["c++filt", s], capture_output=True, text=True).stdout.strip()
    names.setdefault(d.split("(")[0], []).append(s)
out, opts = [], []
for m in re.finditer(r"^\s*(void|long|unsigned long|double) (_ntl_g\w+)\s*\(([^)]*)\)\s*;", h, re.M):
    ret, name, args = m.groups()
    if name in ("_ntl_gfree", "_ntl_gblock_construct_alloc", "_ntl_gblock_construct_set", "_ntl_gblock_destroy", "_ntl_gswap") or len(names.get(name, [])) != 1:
        continue
    mang = names[name][0]
    A = [re.sub(r"\s+", " ", a).strip() for a in args.split(",")]
    P = []
    for i, a in enumerate(A):
        t = a.replace("_ntl_gbigint", "big")
        mm = re.match(r"(.*?[\s*])(\w+)$", t)
        P.append((mm.group(1).strip() if mm else t, f"a{i}"))
    if not any("big" in t for t, _ in P):
        continue
    sig = ", ".join(f"{t} {n}" for t, n in P)
    call = f"real{name}({', '.join(n for _, n in P)})"
    pre = "".join(f" rbig({n}, pc);" for t, n in P if t == "big")
    W = [n for t, n in P if t == "big *" or t == "big*"]
    pre += "".join(f" big o_{n} = {n} ? *{n} : nullptr;" for n in W)
    post = "".join(f" wbig({n}, o_{n}, pc);" for n in W)
    keep = f"{ret} r = " if ret != "void" else ""
    out.append(f'{ret} real{name}({sig}) asm("__real_{mang}");\n{ret} wrap{name}({sig}) asm("__wrap_{mang}");\n{ret} wrap{name}({sig}) {{ if (!watch()) return {call}; const void *pc = PC;{pre} {keep}{call};{post}{" return r;" if keep else ""} }}')
    opts.append(mang)
# FLINT: (function, [arguments read: one integer], [written], vector length argument or None)
F = {"fmpz_mul": ("1,2", "0"), "fmpz_mul_ui": ("1", "0"), "fmpz_mul_si": ("1", "0"), "fmpz_addmul": ("0,1,2", "0"), "fmpz_submul": ("0,1,2", "0"), "fmpz_addmul_ui": ("0,1", "0"), "fmpz_add": ("1,2", "0"), "fmpz_sub": ("1,2", "0"),
     "fmpz_add_ui": ("1", "0"), "fmpz_sub_ui": ("1", "0"), "fmpz_mod": ("1,2", "0"), "fmpz_mod_ui": ("1", "0"), "fmpz_set": ("1", "0"), "fmpz_neg": ("1", "0"), "fmpz_fdiv_qr": ("2,3", "0,1"), "fmpz_fdiv_q": ("1,2", "0"), "fmpz_fdiv_r": ("1,2", "0"), "fmpz_tdiv_q": ("1,2", "0"),
     "fmpz_divexact": ("1,2", "0"), "fmpz_pow_ui": ("1", "0"), "fmpz_set_mpz": ("", "0"), "fmpz_get_ui": ("0", ""), "fmpz_get_si": ("0", ""), "fmpz_size": ("0", ""), "fmpz_sgn": ("0", ""), "fmpz_cmp": ("0,1", ""), "fmpz_equal": ("0,1", ""), "_fmpz_promote_set_ui": ("", "0"), "_fmpz_promote_set_si": ("", "0"), "fmpz_fdiv_ui": ("0", "")}
V = {"_fmpz_vec_set": ("1", "0", 2), "_fmpz_vec_add": ("1,2", "0", 3), "_fmpz_vec_sub": ("1,2", "0", 3), "_fmpz_vec_zero": ("", "0", 1), "_fmpz_vec_neg": ("1", "0", 2), "_fmpz_vec_scalar_mul_fmpz": ("1", "0", 2), "_fmpz_vec_scalar_mul_ui": ("1", "0", 2), "_fmpz_vec_scalar_mul_si": ("1", "0", 2),
     "_fmpz_vec_scalar_addmul_fmpz": ("0,1", "0", 2), "_fmpz_vec_scalar_submul_fmpz": ("0,1", "0", 2), "_fmpz_vec_scalar_mod_fmpz": ("1", "0", 2), "_fmpz_vec_scalar_addmul_ui": ("0,1", "0", 2), "_nmod_vec_sub": ("1,2", "0", 3), "_nmod_vec_add": ("1,2", "0", 3), "_nmod_vec_scalar_addmul_nmod": ("0,1", "0", 2), "_nmod_vec_scalar_mul_nmod": ("1", "0", 2)}
D = {"_fmpz_vec_dot": ("1,2", "0", 3)}
for n, (r, w) in F.items():
    ops = "".join(f" rd(a{i}, 8, PC);" for i in r.split(",") if i) + "".join(f" wr(a{i}, 8, PC);" for i in w.split(",") if i)
    out.append(f"EXPORT long __real_{n}(void *, void *, void *, void *, void *, void *);\nEXPORT long __wrap_{n}(void *a0, void *a1, void *a2, void *a3, void *a4, void *a5) {{ if (watch()) {{{ops} }} return __real_{n}(a0, a1, a2, a3, a4, a5); }}")
    opts.append(n)
for n, (r, w, l) in list(V.items()) + list(D.items()):
    ops = "".join(f" rd(a{i}, 8 * (size_t)a{l}, PC);" for i in r.split(",") if i) + "".join(f" wr(a{i}, {'8' if n in D else f'8 * (size_t)a{l}'}, PC);" for i in w.split(",") if i)
    if n.startswith("_nmod"):   # the modulus is a structure passed by value
        out.append(f"EXPORT void __real_{n}(void *, void *, void *, void *, Nmod);\nEXPORT void __wrap_{n}(void *a0, void *a1, void *a2, void *a3, Nmod m) {{ if (watch()) {{{ops} }} __real_{n}(a0, a1, a2, a3, m); }}")
    else:
        out.append(f"EXPORT long __real_{n}(void *, void *, void *, void *, void *, void *);\nEXPORT long __wrap_{n}(void *a0, void *a1, void *a2, void *a3, void *a4, void *a5) {{ if (watch()) {{{ops} }} return __real_{n}(a0, a1, a2, a3, a4, a5); }}")
    opts.append(n)
opts += ["memcpy", "memmove", "memset", "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_", "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_", "__cxa_guard_acquire", "__cxa_guard_release", "pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock"]
open(os.path.join(here, "sched_wrap.inc"), "w").write("""// generated by gen_sched_wrap.py
struct Nmod { unsigned long n, ninv, norm; };
namespace {
inline void rbig(big b, const void *pc) { if (b) touch((char *)b + 8, 8, false, pc); }
inline void wbig(big *x, big old, const void *pc) { if (!x) return; touch(x, 8, *x != old, pc); if (*x) touch((char *)*x + 8, 8, true, pc); }
}
""" + "\n".join(out) + "\n")
open(os.path.join(here, "sched_wrap.txt"), "w").write("\n".join(opts) + "\n")
print(len(opts))
