// Messages to editors: one line of JSON each.

/// What is sent to an editor; serde decides what fields a message has and how they are written.
#[verifier::external_body]
pub struct EditorProtocolObject { x: u8 }
pub struct EditorProtocolCodec;

/// A JSON value, by its text.
pub type Fields = Map<Seq<char>, Seq<char>>;
pub uninterp spec fn fields(o: EditorProtocolObject) -> Fields;
pub uninterp spec fn json_text(f: Fields) -> Seq<char>;
pub uninterp spec fn json_string(s: Seq<char>) -> Seq<char>;

#[verifier::external_body]
pub struct JsonMap { x: u8 }
pub mod serde_json {
    pub enum Value { Null, Bool(bool), Text(String), Object(super::JsonMap) }
}
impl JsonMap {
    pub uninterp spec fn fields(self) -> Fields;
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: serde_json::Value) -> (r: Option<serde_json::Value>)
        ensures v is Text ==> final(self).fields() == old(self).fields().insert(k@, json_string((v->Text_0)@)),
    { unimplemented!() }
}
impl VInto<serde_json::Value> for &str {
    open spec fn vinto_req(self) -> bool { true }
    open spec fn vinto_ens(self, r: serde_json::Value) -> bool { r is Text && (r->Text_0)@ == self@ }
    #[verifier::external_body]
    fn vinto(self) -> (r: serde_json::Value) { unimplemented!() }
}
/// `serde_json::to_value`: messages are written as objects.
#[verifier::external_body]
pub fn json_value(o: &EditorProtocolObject) -> (r: Result<serde_json::Value, AnyhowError>)
    ensures r is Ok && r->Ok_0 is Object && (r->Ok_0->Object_0).fields() == fields(*o),
{ unimplemented!() }
/// `serde_json::to_string`
#[verifier::external_body]
pub fn json_string_of(m: &JsonMap) -> (r: Result<String, AnyhowError>)
    ensures r is Ok ==> (r->Ok_0)@ == json_text(m.fields()),
{ unimplemented!() }
/// The text of a message.
pub open spec fn message_text(o: EditorProtocolObject) -> Seq<char> {
    json_text(fields(o).insert("jsonrpc"@, json_string("2.0"@)))
}
