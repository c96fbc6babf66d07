import p_conn
import p_client
import p_core
import p_derive
import p_docs
import p_nsmacro
import p_reg
import p_rpc
import p_serve
import p_syntax
import p_table

CHECKS = {"C01": p_derive.c01, "C02": p_derive.c02, "C03": p_derive.c03, "C04": p_derive.c04,
          "C05": p_core.c05, "C06": p_core.c06, "C07": p_reg.c07, "C08": p_rpc.c08, "C09": p_nsmacro.c09, "C16": p_docs.c16, "C17": p_reg.c17, "C20": p_derive.c20, "C21": p_table.c21}
CHECKS.update(p_serve.checks())
CHECKS.update(p_conn.checks())
CHECKS["C19"] = p_syntax.c19
CHECKS["C22"] = p_client.c22

_D = ("Every path of the derive over an arbitrary declaration (any number of fields/variants, any serde attributes) is "
      "executed symbolically from the sources in /repo and its emitted code evaluated; all obligations are discharged by z3. "
      "Trusts the executor in zv/, z3, and the models of syn/quote/serde_derive_internals/darling and std listed in the "
      "evidence. A pseudo-random battery of real declarations backs it up (bounded).")
_B = ("Every built-in implementation in core/src/build_ins.rs (after macro expansion) is executed symbolically with "
      "opaque type parameters and its views compared with the specification; integer ranges are decided by z3 over all "
      "reals. Trusts the executor in zv/, z3 and the std contracts. Batteries on the real crate (zod v3 in node for "
      "scalars) back it up (bounded).")
_R = ("The functions named in the evidence (or what the macros emit for an arbitrary impl block / backend) are executed "
      "symbolically from the sources in /repo for any number of items and any values, and every path compared with the "
      "specification; obligations are discharged by z3. Trusts the executor in zv/, z3, the std/tokio/futures/serde contracts "
      "listed in the evidence. A battery drives the real code (bounded).")
NOTES = {"C01": {"note": _D}, "C02": {"note": _D}, "C03": {"note": _D}, "C04": {"note": _D}, "C05": {"note": _B}, "C06": {"note": _B}, "C07": {"note": _R}, "C17": {"note": _R}, "C08": {"note": _R}, "C09": {"note": _R}, "C16": {"note": _D}, "C19": {"note": _D}, "C20": {"note": _D}, "C21": {"note": _R}}
NOTES.update({_i: {"note": _R} for _i in ("C10", "C11", "C12", "C13", "C14", "C15", "C18")})
NOTES["C22"] = {"note": "The client's functions are executed symbolically from the TypeScript source in /repo (parsed by the TypeScript "
                "compiler): request and subscribe against the contract of the connection, for any counter, reply and data (z3); the "
                "connection against that contract from every state of an invariant found as a fixpoint, with one arbitrary message and "
                "subscription followed among any number of others. Trusts zv/tsx.py, z3 and the WebSocket contract listed in the evidence. "
                "Histories on the real client in node back it up (bounded)."}
for _i in CHECKS:
    if _i not in NOTES:
        NOTES[_i] = {"note": "Bounded stand-in only: a battery of inputs and histories on the real code; nothing is proved yet.",
                     "level": "exploration", "technique": "bounded battery on the real code (stand-in for a contract not discharged yet)"}
NA = {}
