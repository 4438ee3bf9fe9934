@source daemon/src/types.rs

@fn FileTextDelta::new
@args file_path delta
@props C09
@spec
ensures r.file_path == file_path, r.delta == delta

@fn <TryFrom<Patch> for PatchEffect>::try_from
@props C09 C21
@traitspec
open spec fn vtry_into_req(self) -> bool { usual(self) }
open spec fn vtry_into_ens(self, r: Result<PatchEffect, AnyhowError>) -> bool { r is Ok && right_effect(self, r->Ok_0) }
@entry
proof {
    reveal_strlit("files");
    reveal_strlit("states");
    assert("files"@ != "states"@) by { assert("files"@.len() == 5 && "states"@.len() == 6); }
    let (g, h) = choose|g: Texts, h: Texts| #[trigger] patch_step(g, self, h);
    assert(patch_step(g, self, h));
}
@after insert
proof { patchlem::lemma_splices(delta.ops(), index as nat, value@); }
@after delete
proof { patchlem::lemma_cuts(delta.ops(), index as nat, length as nat); }

@fn PatchEffect::from_crdt_patches
@args patches
@props C09 C21
@spec
requires exists|f0: Texts, f1: Texts| #[trigger] patches_tell(patches@, f0, f1)
ensures
    moves(r@) == told_cursors(patches@),
    forall|f0: Texts, f1: Texts| #[trigger] patches_tell(patches@, f0, f1) ==> effects_tell(r@, f0, f1),
@entry
proof {
    let (f0, f1) = choose|f0: Texts, f1: Texts| #[trigger] patches_tell(patches@, f0, f1);
    patchlem::lemma_usual(patches@, f0, f1);
}
let ghost ps = patches@;
@loop 1
iter it
invariant
    it.seq() == vx_it1@, vx_it1@ == ps, forall|i: int| 0 <= i < ps.len() ==> usual(#[trigger] ps[i]),
    file_deltas@.len() == it.index@, forall|i: int| 0 <= i < it.index@ ==> right_effect(ps[i], #[trigger] file_deltas@[i]),
@loop 1 after
proof { patchlem::lemma_effects(ps, file_deltas@); }

@fn <From<TextDelta> for Vec<PatchAction>>::from
@props C04
@traitspec
open spec fn vinto_req(self) -> bool { target(self.ops()) <= usize::MAX && base(self.ops()) <= usize::MAX }
open spec fn vinto_ens(self, r: Vec<PatchAction>) -> bool {
    forall|t: Seq<char>| fits(self.ops(), t) ==> #[trigger] acts(r@, t) == Some(apply(self.ops(), t))
}
@entry
let ghost ops = self.ops();
@loop 1
iter it
invariant
    it.seq() == self.0@, ops == self.ops(), target(ops) <= usize::MAX,
    position == target(ops.take(it.index@)),
    forall|t: Seq<char>| fits(ops, t) ==> #[trigger] acts(patch_actions@, t) == Some(midway(ops.take(it.index@), t)),
@loop 1 before
proof {
    assert forall|t: Seq<char>| fits(ops, t) implies #[trigger] acts(patch_actions@, t) == Some(midway(ops.take(0), t)) by {
        assert(midway(ops.take(0), t) =~= t);
    }
}
@loop 1 start
proof { actlem::lemma_step(ops, it.index@); }
let ghost before = patch_actions@;
@loop 1 end
proof { actlem::lemma_stepped(ops, it.index@, before, patch_actions@); }
@loop 1 after
proof { assert(ops.take(ops.len() as int) =~= ops); }
