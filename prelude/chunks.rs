// dissimilar: a diff is the common, removed and added pieces of two texts.
pub enum Chunk<'a> { Equal(&'a str), Delete(&'a str), Insert(&'a str) }

pub open spec fn chunks_old(c: Seq<Chunk<'_>>) -> Seq<char>
    decreases c.len(),
{
    if c.len() == 0 { Seq::empty() } else {
        match c.last() {
            Chunk::Equal(s) => chunks_old(c.drop_last()) + s@,
            Chunk::Delete(s) => chunks_old(c.drop_last()) + s@,
            Chunk::Insert(_) => chunks_old(c.drop_last()),
        }
    }
}

pub open spec fn chunks_new(c: Seq<Chunk<'_>>) -> Seq<char>
    decreases c.len(),
{
    if c.len() == 0 { Seq::empty() } else {
        match c.last() {
            Chunk::Equal(s) => chunks_new(c.drop_last()) + s@,
            Chunk::Delete(_) => chunks_new(c.drop_last()),
            Chunk::Insert(s) => chunks_new(c.drop_last()) + s@,
        }
    }
}

#[verifier::external_body]
pub fn dissimilar_diff<'a>(a: &'a str, b: &'a str) -> (r: Vec<Chunk<'a>>)
    ensures chunks_old(r@) == a@, chunks_new(r@) == b@,
{ unimplemented!() }

/// The steps turn the old side of a diff into the new side.
pub open spec fn chunk_delta(ops: Seq<Op>, c: Seq<Chunk<'_>>) -> bool {
    fits(ops, chunks_old(c)) && apply(ops, chunks_old(c)) == chunks_new(c)
}

pub proof fn lemma_old_prefix(c: Seq<Chunk<'_>>, i: int)
    requires 0 <= i <= c.len(),
    ensures chunks_old(c.take(i)).is_prefix_of(chunks_old(c)),
    decreases c.len() - i,
{
    if i < c.len() {
        lemma_old_prefix(c, i + 1);
        assert(c.take(i + 1).drop_last() =~= c.take(i));
        let (a, b, d) = (chunks_old(c.take(i)), chunks_old(c.take(i + 1)), chunks_old(c));
        assert(b.subrange(0, a.len() as int) =~= a);
        assert(d.subrange(0, a.len() as int) =~= b.subrange(0, a.len() as int));
    } else {
        assert(c.take(i) =~= c);
    }
}

/// One more chunk.
pub proof fn lemma_chunk(c: Seq<Chunk<'_>>, i: int)
    requires 0 <= i < c.len(),
    ensures
        chunks_old(c.take(i + 1)).is_prefix_of(chunks_old(c)),
        chunks_old(c.take(i + 1)) == (match c[i] { Chunk::Equal(s) => chunks_old(c.take(i)) + s@, Chunk::Delete(s) => chunks_old(c.take(i)) + s@, Chunk::Insert(s) => chunks_old(c.take(i)) }),
        chunks_new(c.take(i + 1)) == (match c[i] { Chunk::Equal(s) => chunks_new(c.take(i)) + s@, Chunk::Delete(s) => chunks_new(c.take(i)), Chunk::Insert(s) => chunks_new(c.take(i)) + s@ }),
        c[i] is Equal ==> chunks_old(c).subrange(chunks_old(c.take(i)).len() as int, chunks_old(c.take(i + 1)).len() as int) == (c[i]->Equal_0)@,
{
    lemma_old_prefix(c, i + 1);
    assert(c.take(i + 1).drop_last() =~= c.take(i));
    if c[i] is Equal {
        let (a, b) = (chunks_old(c.take(i)), chunks_old(c.take(i + 1)));
        assert(b.subrange(a.len() as int, b.len() as int) =~= (c[i]->Equal_0)@);
        assert(chunks_old(c).subrange(a.len() as int, b.len() as int) =~= b.subrange(a.len() as int, b.len() as int));
    }
}
