ID="C16-branches"; PROP="C16"; KIND="server"
NEEDS="an `if` or `match` without a prescribed type, whose first branch is a mutable reference and a later one is not"
BREAKS="branches with a mutable and an immutable reference are typed mutable, so the immutable one can be passed where a mutable one is required"
EDITS=[("crates/lang/src/types/inference/combine_types.rs",'''                            let min_mut = left_ty_ref.mutability.intersect(right_ty_ref.mutability);
                            Ty::new_reference(left_ty_ref.referenced().unwrap_all_refs(), min_mut)''','''                            let _ = right_ty_ref;
                            Ty::new_reference(
                                left_ty_ref.referenced().unwrap_all_refs(),
                                left_ty_ref.mutability,
                            )''')]
DEMO='''
import os, sys, lspc
bin, w = sys.argv[1:]
lspc.package(os.path.join(w, "a"), name="A", files={"sources/a.move": """module 0x1::a {
    fun needs(r: &mut u8) { *r = 1; }
    public fun one(c: bool, a: &mut u8, b: &u8) { let r = if (c) { a } else { b }; needs(r); }
    public fun two(c: bool, a: &mut u8, b: &u8) { let r = if (c) { b } else { a }; needs(r); }
    public fun three(c: bool, a: &mut u8, b: &mut u8) { let r = if (c) { b } else { a }; needs(r); }
}
"""})
s = lspc.Server(bin, w)
s.quiescent()
r = s.request("textDocument/diagnostic", {"textDocument": {"uri": lspc.uri(os.path.join(w, "a/sources/a.move"))}})
s.stop()
got = [d["range"]["start"]["line"] for d in r["result"]["items"] if d.get("code") == "type-error"]
assert got == [2, 3], r
'''
