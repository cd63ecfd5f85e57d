//! The events of a document in one comparable form, as produced by the
//! reader under check and by the reference in `spec`

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Pos {
    pub byte: usize,
    pub line: usize,
    pub col: usize,
}
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct QName {
    pub prefix: String,
    pub uri: String,
    pub local: String,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    StartDoc,
    EndDoc,
    Start,
    End,
    Content,
    Comment,
    Pi,
}
#[derive(Clone, Debug)]
pub struct Ev {
    pub k: K,
    pub span: (Pos, Pos),
    pub name: QName,
    pub attrs: Vec<(QName, String)>,
    pub raw: bool,
    pub data: String,
    pub lengths: Vec<usize>,
    pub version: usize,
}
impl Ev {
    pub fn new(k: K, span: (Pos, Pos)) -> Ev {
        Ev {
            k,
            span,
            name: QName::default(),
            attrs: vec![],
            raw: false,
            data: String::new(),
            lengths: vec![],
            version: 0,
        }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum E {
    // lexical
    TagName,
    AfterTag,
    Equals,
    NoEquals,
    Char,
    // structural
    Indent,
    CloseTag,
    OpenBox,
    Content,
    Attribute,
    // names
    Unmapped,
    Other,
    Beyond,
    /// A panic, seen only in a replay
    Crash,
    /// Unexpected end, as the implementation reports NoEquals and OpenBox
    Eof,
}
impl E {
    /// True if the kind of error reported is the one expected
    pub fn is(self, expected: E) -> bool {
        self == expected || self == E::Eof && matches!(expected, E::NoEquals | E::OpenBox)
    }
    pub fn lexical(self) -> bool {
        matches!(self, E::TagName | E::AfterTag | E::Equals | E::NoEquals | E::Char)
    }
    pub fn structural(self) -> bool {
        matches!(self, E::Indent | E::CloseTag | E::OpenBox | E::Content | E::Attribute)
    }
}
#[derive(Clone, Debug)]
pub struct Er {
    pub e: E,
    pub span: Option<(Pos, Pos)>,
    pub num: u64,
}
#[derive(Clone, Debug)]
pub struct Out {
    pub ev: Vec<Ev>,
    pub err: Option<Er>,
    /// byte range of the item the error is about (reference only)
    pub item: (usize, usize),
    /// start event that may or may not be delivered before the error (reference only)
    pub open: Option<Ev>,
}
