broadcast seqlem::group_seq textlem::group_text
include prelude/core.rs
use units/std_more.inc
include prelude/text.rs
include prelude/rope.rs
include prelude/otlib.rs
type daemon/src/types.rs TextOp TextDelta Position+structural Range EditorTextOp EditorTextDelta RevisionedEditorTextDelta RevisionedTextDelta
include prelude/types_view.rs
include prelude/editor.rs
