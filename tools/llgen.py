#!/usr/bin/env python3
"""Random LLVM modules of declarations, written as assembly.

llgen.py OUTDIR SEED COUNT: write modules, assemble them with llvm-as, hand the bitcode to `sim file`, and
print every file on which mollusc, the harness's reference and LLVM do not agree that it is fine.
No check runs this; it compares the reference with LLVM itself.
"""
import os, random, shutil, subprocess, sys

BIN = os.environ.get("LLVM_BIN", "/usr/lib/llvm-18/bin")
SIM = os.environ.get("SIM", os.path.join(os.path.dirname(os.path.abspath(__file__)), "../sim/target/release/sim"))
LINK = ["private", "internal", "available_externally", "linkonce", "weak", "common", "appending", "extern_weak",
        "linkonce_odr", "weak_odr", "external", "", "", ""]
CC = ["", "", "ccc", "fastcc", "coldcc", "ghccc", "cc 11", "anyregcc", "preserve_mostcc", "preserve_allcc",
      "cxx_fast_tlscc", "tailcc", "cfguard_checkcc", "swiftcc", "swifttailcc", "x86_stdcallcc", "x86_fastcallcc",
      "arm_apcscc", "arm_aapcscc", "arm_aapcs_vfpcc", "msp430_intrcc", "x86_thiscallcc", "ptx_kernel", "ptx_device",
      "spir_func", "spir_kernel", "intel_ocl_bicc", "x86_64_sysvcc", "win64cc", "x86_vectorcallcc",
      "x86_regcallcc", "amdgpu_vs", "amdgpu_kernel", "aarch64_vector_pcs", "aarch64_sve_vector_pcs"]
FNATTR = """alwaysinline cold convergent disable_sanitizer_instrumentation fn_ret_thunk_extern hot inlinehint
jumptable minsize naked nobuiltin nocallback nocf_check noduplicate nofree noimplicitfloat noinline nomerge nonlazybind
noprofile norecurse noredzone noreturn nosanitize_bounds nosanitize_coverage nosync nounwind null_pointer_is_valid
optforfuzzing optsize presplitcoroutine returns_twice safestack sanitize_address sanitize_hwaddress
sanitize_memory sanitize_memtag sanitize_thread shadowcallstack skipprofile speculatable speculative_load_hardening ssp sspreq sspstrong strictfp willreturn
mustprogress uwtable uwtable(sync) alignstack(16) alignstack(4) allocsize(0) allocsize(0,1) vscale_range(1) vscale_range(1,16) vscale_range(2,0)
memory(none) memory(read) memory(argmem:read) memory(readwrite,argmem:none) allockind("alloc,zeroed") allockind("free") "key" "key"="value" "target-cpu"="x86-64" "a\\22b"="\\01\\C3\\A9" """.split()
INTATTR = ["zeroext", "signext", "noundef", "inreg", "range"]
PTRATTR = ["noalias", "nocapture", "nonnull", "readonly", "writeonly", "readnone", "nofree", "nest", "returned", "align 4",
           "align 4294967296", "dereferenceable(8)", "dereferenceable_or_null(18446744073709551615)", "swiftself", "swiftasync", "noundef",
           "inreg", "immarg", "allocptr", "alignstack(8)"]
TRIPLES = ["x86_64-pc-linux-gnu", "aarch64-apple-macosx", "é-é-é", "", "wasm32-unknown-unknown", "arm-none-eabi", "a b"]
LAYOUTS = ["", "e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-f80:128-n8:16:32:64-S128", "E-m:e-i64:64-n32:64",
           "e-m:o-i64:64-i128:128-n32:64-S128", "e-m:e-p:32:32-i64:64-n32-S128", "e-p:64:64-p1:64:64-p2:32:32-A5-G1-ni:7:8", "E-m:a-p:32:32-Fi32-i64:64-n32",
           "e-P1-G2", "e-p:16:16-i32:16-i64:16-f32:16-f64:16-a:8-n8:16-S16", "e-m:l-p:64:64", "e-i1:8:32-i8:8:32-v128:64-a:0:32"]


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.named = []
        self.vals = []
        self.out = []

    def c(self, n):
        return self.r.randrange(n) == 0

    def p(self, xs):
        return self.r.choice(xs)

    def name(self, sigil, k):
        r = self.r
        n = self.p(["%s%d" % (self.p(["f", "long_name_", "x.y-", "_ZN"]), k), "n%d" % k,
                    '"%s %d"' % (self.p(["q uoted", "\\C3\\A9", "\\01", "\\00z", "é"]), k), 'x' * r.randrange(1, 80) + str(k)])
        return sigil + n

    def ty(self, d=0, first=True):
        r = self.r
        k = r.randrange(15 if d < 4 else 7)
        if k <= 2:
            return "i%d" % self.p([1, 8, 16, 32, 64, 128, 7, 65, 8388607 if d else 33])
        if k == 3:
            return self.p(["half", "bfloat", "float", "double", "x86_fp80", "fp128", "ppc_fp128"])
        if k in (4, 5):
            return self.p(["ptr", "ptr", "ptr addrspace(%d)" % r.randrange(1, 300), "ptr addrspace(8388607)" if self.c(30) else "ptr"])
        if k == 6 and self.named:
            return self.p(self.named)
        if k == 7:
            return "[%d x %s]" % (self.p([0, 1, 4, 1 << 32, 1 << 63]), self.ty(d + 1))
        if k == 8:
            return "<%d x %s>" % (self.p([1, 2, 16, 1 << 20]), self.p(["i1", "i8", "float", "ptr", "i32", "ptr addrspace(3)"]))
        if k in (9, 10):
            return "{%s}" % ", ".join(self.ty(d + 1) for _ in range(r.randrange(5)))
        if k == 11:
            return "<{%s}>" % ", ".join(self.ty(d + 1) for _ in range(r.randrange(4)))
        return "i32"

    def pty(self):
        if self.c(15):
            return "<vscale x %d x i32>" % self.p([1, 2, 4])
        if self.c(40):
            return self.p(["metadata", "token", "x86_amx", "x86_mmx"])
        return self.ty(1)

    def attrs(self, t):
        if t.startswith("ptr"):
            pool = PTRATTR
        elif t.startswith("i") and "x" not in t:
            pool = INTATTR[:4]
        else:
            pool = ["noundef", "inreg"]
        k = self.r.randrange(3)
        return " ".join(self.r.sample(pool, min(k, len(pool))))

    def module(self):
        r = self.r
        o = self.out
        if not self.c(3):
            o.append('source_filename = "%s"' % self.p(["a.c", "", "x", "é.rs", "l" * 300]))
        if self.c(2):
            o.append('target datalayout = "%s"' % self.p(LAYOUTS))
        if not self.c(3):
            o.append('target triple = "%s"' % self.p(TRIPLES))
        for _ in range(r.randrange(3) if self.c(2) else 0):
            o.append('module asm "%s"' % self.p(["nop", "", ".globl x", "\\09tab", "a\\0Ab"]))
        for i in range(r.randrange(6)):
            n = self.name("%", i)
            if "\\00" in n or "\\FF" in n:
                n = "%%t%d" % i
            kind = r.randrange(4)
            if kind == 0:
                o.append("%s = type opaque" % n)
                # Not sized: only behind pointers.
            else:
                o.append("%s = type %s" % (n, self.p(["{%s}", "<{%s}>"]) % ", ".join(self.ty(2) for _ in range(r.randrange(4)))))
                self.named.append(n)
        comdats = []
        for i in range(r.randrange(4) if self.c(2) else 0):
            c = self.name("$", i)
            if "\\00" in c:
                c = "$c%d" % i
            comdats.append(c)
            o.append("%s = comdat %s" % (c, self.p(["any", "exactmatch", "largest", "nodeduplicate", "samesize"])))
        for i in range(r.randrange(8)):
            n = self.name("@", 1000 + i)
            t = self.ty()
            l = self.p(LINK)
            decl = l in ("external", "extern_weak")
            if l == "appending":
                t = "[2 x i32]"
            vis = self.p(["", "", "hidden", "protected"]) if l not in ("private", "internal") else ""
            init = "" if decl else self.p([" zeroinitializer", " undef", " poison"])
            if not decl and t == "i32" and self.c(2):
                init = " %d" % self.p([0, 1, -1, 5])
            if l == "common":
                t, init = "i32", " 0"
            tail = ""
            if self.c(3):
                tail += ', section "%s"' % self.p(["sé", ".data.x", "__DATA,__x"])
            if comdats and self.c(3) and not decl and l not in ("common", "available_externally"):
                tail += ", comdat(%s)" % self.p(comdats)
            if self.c(3):
                tail += ", align %d" % self.p([1, 4, 16, 4096])
            if self.c(8):
                tail += ", partition \"part\""
            if self.c(8):
                tail += ", code_model \"small\""
            tls = self.p(["thread_local", "thread_local(initialexec)", "thread_local(localdynamic)", ""]) if self.c(4) else ""
            dso = "dso_local" if self.c(4) else ""
            dll = "dllexport" if self.c(12) and l in ("weak", "external") and not vis and not decl else ""
            unn = self.p(["", "", "unnamed_addr", "local_unnamed_addr"])
            asp = "addrspace(%d)" % r.randrange(1, 9) if self.c(5) else ""
            ext = "externally_initialized" if self.c(9) and not decl else ""
            kind = "constant" if self.c(3) and l != "common" else "global"
            o.append(" ".join(x for x in [n, "=", l, dso, vis, dll, tls, unn, asp, ext, kind, t] if x) + init + tail)
            self.vals.append((n, asp, t, decl))
        funs = []
        for i in range(r.randrange(8)):
            n = self.name("@", 2000 + i)
            ret = self.p(["void", self.pty(), self.ty(1)])
            if ret in ("metadata",):
                ret = "void"
            ps = []
            rets = 0
            for _ in range(r.randrange(5)):
                t = self.pty()
                a = self.attrs(t)
                if "returned" in a or "nest" in a or "swift" in a:
                    a = ""
                if t == "token":
                    t = "i32"
                ps.append((t + " " + a).strip())
            fa = " ".join(r.sample(FNATTR, r.randrange(5)))
            bad = [("minsize", "optnone"), ("allocsize", "")]
            if "allocsize" in fa and not (len(ps) >= 2 and ps[0].startswith("i") and ps[1].startswith("i")):
                fa = "nounwind"
            if "alwaysinline" in fa and "noinline" in fa:
                fa = ""
            if "allockind" in fa or "jumptable" in fa:
                fa = "nounwind"
            ra = self.attrs(ret) if ret != "void" else ""
            for b in ("nocapture", "readonly", "writeonly", "readnone", "nofree", "nest", "returned", "swift", "immarg", "allocptr", "dead_on_unwind", "writable", "alignstack"):
                if b in ra:
                    ra = ""
            l = self.p(["", "", "", "external", "extern_weak"])
            va = ", ..." if ps and self.c(5) else ("..." if self.c(8) and not ps else "")
            dso = "dso_local" if self.c(4) else ""
            vis = self.p(["", "", "hidden", "protected"])
            dll = "dllimport" if self.c(9) and l != "extern_weak" and not dso and not vis else ""
            asp = "addrspace(%d)" % r.randrange(1, 9) if self.c(9) else ""
            tail = ""
            if self.c(5):
                tail += ' section "%s"' % self.p(["fs", ".text.x"])
            if self.c(6):
                tail += " align %d" % self.p([1, 2, 16, 1 << 32])
            if self.c(6):
                tail += ' gc "%s"' % self.p(["gg", "shadow-stack", "statepoint-example"])
            if self.c(20):
                tail += " prefix i32 5"
            o.append(" ".join(x for x in ["declare", l, dso, vis, dll, self.p(CC), ra, ret, n + "(" + ", ".join(ps) + va + ")",
                                          self.p(["", "", "unnamed_addr", "local_unnamed_addr"]), asp, fa] if x) + tail)
            funs.append(n)
        al = [v for v in self.vals if not v[3]]
        for i in range(r.randrange(4) if al else 0):
            n = self.name("@", 3000 + i)
            v = self.p(al)
            l = self.p(["", "private", "internal", "weak", "weak_odr", "linkonce", "linkonce_odr"])
            vis = self.p(["", "", "hidden", "protected"]) if l not in ("private", "internal") else ""
            tls = self.p(["", "", "", "thread_local", "thread_local(localexec)"])
            unn = self.p(["", "", "unnamed_addr", "local_unnamed_addr"])
            pt = ", partition \"pp\"" if self.c(6) else ""
            tt = self.p([v[2], "i8"])
            o.append(" ".join(x for x in [n, "=", l, "dso_local" if self.c(4) else "", vis, tls, unn, "alias", tt] if x)
                     + ", ptr %s %s" % (v[1], v[0]) + pt)
        for i in range(r.randrange(2)):
            o.append("!named%d = !{!%d}" % (i, i))
            o.append('!%d = !{i32 1, !"x", i32 %d}' % (i, r.randrange(9)))
        if self.c(4):
            o.append('!llvm.module.flags = !{!90}\n!90 = !{i32 1, !"wchar_size", i32 4}')
        return "\n".join(o) + "\n"


def main():
    d, seed, n = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    os.makedirs(d, exist_ok=True)
    seen, last = {}, None
    for i in range(seed, seed + n):
        ll = "%s/%d.ll" % (d, i)
        bc = "%s/%d.bc" % (d, i)
        open(ll, "w").write(Gen(i).module())
        q = subprocess.run([BIN + "/llvm-as", "-disable-verify" if i % 2 else "-o=" + bc, ll, "-o", bc] if i % 2 else [BIN + "/llvm-as", ll, "-o", bc],
                           capture_output=True, text=True, errors="replace")
        if q.returncode:
            k = "llvm-as: " + (q.stderr.strip().split("error:")[-1].split("\n")[0][:60])
            seen[k] = seen.get(k, 0) + 1
            os.remove(ll)
            continue
        if i % 3 == 0 and last:
            # Several modules in one file, each with its own BLOCKINFO.
            subprocess.run([BIN + "/llvm-cat", "-b", last, bc, last, "-o", bc + ".cat"], check=True)
            os.replace(bc + ".cat", bc)
        elif i % 3:
            last = "%s/last.bc" % d
            shutil.copy(bc, last)
        q = subprocess.run([SIM, "file", bc], capture_output=True, text=True, errors="replace")
        v = [x for x in q.stdout.split("\n") if x.startswith(("reference", "mollusc", "difference", "report"))]
        v = ["report: ok" if x.startswith("report: ") and x.endswith("None)") else x for x in v]
        k = " | ".join(x[:110] for x in v) or "crash %d %s" % (q.returncode, q.stderr[-150:])
        if k not in seen and len(seen) < 300:
            print(i, k, flush=True)
        seen[k] = seen.get(k, 0) + 1
        if k.endswith("difference: None | report: ok"):
            os.remove(ll)
            os.remove(bc)
    for k, c in sorted(seen.items(), key=lambda x: -x[1]):
        print(c, k)


main()
