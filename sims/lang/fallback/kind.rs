use std::fmt;
pub const GENERATED_BY: &str = "build.rs";
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u16)]
pub enum SyntaxKind {
    Whitespace,
    Comment,
    DelAllKw,
    CaseKw,
    ElseKw,
    FastKw,
    ThenKw,
    DelKw,
    LetKw,
    PubKw,
    UseKw,
    IfKw,
    MinusDotMinus,
    LtMinusGt,
    EqEqEq,
    BangEq,
    AndAnd,
    PlusPlus,
    MinusGt,
    DotDot,
    LtEq,
    EqEq,
    EqGt,
    GtEq,
    AtAt,
    BarGt,
    Bang,
    Dollar,
    Percent,
    And,
    LRound,
    RRound,
    Star,
    Plus,
    Comma,
    Minus,
    Dot,
    Slash,
    Colon,
    Semicolon,
    Lt,
    Eq,
    Gt,
    Question,
    LSquare,
    RSquare,
    Carat,
    Tick,
    LCurly,
    Bar,
    RCurly,
    Tilde,
    Bad,
    Name,
    Num,
    Root,
    Script,
    UseItem,
    DelItem,
    DelAllItem,
    LetItem,
    SetItem,
    CaseItem,
    Block,
    ErrItem,
    Trail,
    Ann,
    Arm,
    AnyPat,
    NumPat,
    NodePat,
    OrPat,
    NameRef,
    NumLit,
    Paren,
    Bin,
    Lambda,
    Typed,
    Cond,
    Triple,
    Pick,
    Fold,
    Params,
}
impl SyntaxKind {
    pub const PUNCTUATION: [(&'static [u8], Self); 40usize] = [
        (b"-.-", Self::MinusDotMinus),
        (b"<->", Self::LtMinusGt),
        (b"===", Self::EqEqEq),
        (b"!=", Self::BangEq),
        (b"&&", Self::AndAnd),
        (b"++", Self::PlusPlus),
        (b"->", Self::MinusGt),
        (b"..", Self::DotDot),
        (b"<=", Self::LtEq),
        (b"==", Self::EqEq),
        (b"=>", Self::EqGt),
        (b">=", Self::GtEq),
        (b"@@", Self::AtAt),
        (b"|>", Self::BarGt),
        (b"!", Self::Bang),
        (b"$", Self::Dollar),
        (b"%", Self::Percent),
        (b"&", Self::And),
        (b"(", Self::LRound),
        (b")", Self::RRound),
        (b"*", Self::Star),
        (b"+", Self::Plus),
        (b",", Self::Comma),
        (b"-", Self::Minus),
        (b".", Self::Dot),
        (b"/", Self::Slash),
        (b":", Self::Colon),
        (b";", Self::Semicolon),
        (b"<", Self::Lt),
        (b"=", Self::Eq),
        (b">", Self::Gt),
        (b"?", Self::Question),
        (b"[", Self::LSquare),
        (b"]", Self::RSquare),
        (b"^", Self::Carat),
        (b"`", Self::Tick),
        (b"{", Self::LCurly),
        (b"|", Self::Bar),
        (b"}", Self::RCurly),
        (b"~", Self::Tilde),
    ];
    pub fn keyword(bs: &[u8]) -> Option<Self> {
        let ret = match bs {
            b"del_all" => Self::DelAllKw,
            b"case" => Self::CaseKw,
            b"else" => Self::ElseKw,
            b"fast" => Self::FastKw,
            b"then" => Self::ThenKw,
            b"del" => Self::DelKw,
            b"let" => Self::LetKw,
            b"pub" => Self::PubKw,
            b"use" => Self::UseKw,
            b"if" => Self::IfKw,
            _ => return None,
        };
        Some(ret)
    }
    pub fn token_desc(&self) -> Option<&'static str> {
        let ret = match *self {
            Self::MinusDotMinus => "`-.-`",
            Self::LtMinusGt => "`<->`",
            Self::EqEqEq => "`===`",
            Self::BangEq => "`!=`",
            Self::AndAnd => "`&&`",
            Self::PlusPlus => "`++`",
            Self::MinusGt => "`->`",
            Self::DotDot => "`..`",
            Self::LtEq => "`<=`",
            Self::EqEq => "`==`",
            Self::EqGt => "`=>`",
            Self::GtEq => "`>=`",
            Self::AtAt => "`@@`",
            Self::BarGt => "`|>`",
            Self::Bang => "`!`",
            Self::Dollar => "`$`",
            Self::Percent => "`%`",
            Self::And => "`&`",
            Self::LRound => "`(`",
            Self::RRound => "`)`",
            Self::Star => "`*`",
            Self::Plus => "`+`",
            Self::Comma => "`,`",
            Self::Minus => "`-`",
            Self::Dot => "`.`",
            Self::Slash => "`/`",
            Self::Colon => "`:`",
            Self::Semicolon => "`;`",
            Self::Lt => "`<`",
            Self::Eq => "`=`",
            Self::Gt => "`>`",
            Self::Question => "`?`",
            Self::LSquare => "`[`",
            Self::RSquare => "`]`",
            Self::Carat => "`^`",
            Self::Tick => "```",
            Self::LCurly => "`{`",
            Self::Bar => "`|`",
            Self::RCurly => "`}`",
            Self::Tilde => "`~`",
            Self::DelAllKw => "`del_all`",
            Self::CaseKw => "`case`",
            Self::ElseKw => "`else`",
            Self::FastKw => "`fast`",
            Self::ThenKw => "`then`",
            Self::DelKw => "`del`",
            Self::LetKw => "`let`",
            Self::PubKw => "`pub`",
            Self::UseKw => "`use`",
            Self::IfKw => "`if`",
            Self::Bad => "a bad character",
            Self::Name => "a name",
            Self::Num => "a number",
            _ => return None,
        };
        Some(ret)
    }
    pub fn token_doc(&self) -> Option<&'static str> {
        let ret = match *self {
            Self::EqEqEq => "On ===.\n\n\n\nThree of them.",
            Self::PlusPlus => "On ++.\n",
            Self::MinusGt => "On ->.\n\nAn arrow.",
            Self::DotDot => "On ...\n\nTwo.",
            Self::EqGt => "On =>.\n\nSeparates parameters and result.",
            Self::Minus => "On -.\n",
            Self::Dot => "On ..\n\nOne.\n\n",
            Self::Semicolon => "On ;.\n\n\nEnds an item, `more` than once.\n",
            Self::Tick => "On `.\n\nA `tick`.",
            Self::LetKw => "On let.\n\n\nBinds a name.\n\n```text\nlet a = b;\n```\n",
            Self::PubKw => {
                "\n\nBinds for others, `let`\n## `del` \nis not a heading, nor is\n ## `case`\n##  `if`\nor\n## `then\n## else`\n### `fast`\n"
            }
            Self::UseKw => "On use.\n\n\nImports a file.",
            Self::Name => {
                "On Name.\n\n\nNot a keyword. Unlike `let`.\n\n### `use`\n\nIs not a heading of a token.\n"
            }
            _ => return None,
        };
        Some(ret)
    }
}
impl token::Triviable for SyntaxKind {
    fn is_trivia(&self) -> bool {
        matches!(* self, Self::Whitespace | Self::Comment)
    }
}
impl fmt::Display for SyntaxKind {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.token_desc() {
            None => fmt::Debug::fmt(self, f),
            Some(s) => f.write_str(s),
        }
    }
}
impl From<SyntaxKind> for rowan::SyntaxKind {
    fn from(kind: SyntaxKind) -> Self {
        Self(kind as u16)
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Lang {}
impl rowan::Language for Lang {
    type Kind = SyntaxKind;
    fn kind_from_raw(raw: rowan::SyntaxKind) -> Self::Kind {
        assert!(raw.0 <= SyntaxKind::Params as u16);
        unsafe { std::mem::transmute::<u16, SyntaxKind>(raw.0) }
    }
    fn kind_to_raw(kind: Self::Kind) -> rowan::SyntaxKind {
        kind.into()
    }
}
pub type SyntaxNode = rowan::SyntaxNode<Lang>;
pub type SyntaxToken = rowan::SyntaxToken<Lang>;
pub type SyntaxElement = rowan::SyntaxElement<Lang>;
