use crate::kind::{SyntaxKind as SK, SyntaxNode, SyntaxToken, Lang};
pub use rowan::ast::{AstNode, AstPtr};
pub const GENERATED_BY: &str = "build.rs";
pub type SyntaxNodePtr = rowan::ast::SyntaxNodePtr<Lang>;
#[allow(unused)]
fn tokens<P>(parent: &P, kind: SK) -> impl Iterator<Item = SyntaxToken> + use<P>
where
    P: AstNode<Language = Lang>,
{
    parent
        .syntax()
        .children_with_tokens()
        .filter_map(rowan::NodeOrToken::into_token)
        .filter(move |tok| tok.kind() == kind)
}
#[allow(unused)]
fn token_children<P, C>(parent: &P) -> impl Iterator<Item = C> + use<P, C>
where
    P: AstNode<Language = Lang>,
    SyntaxToken: TryInto<C>,
{
    parent
        .syntax()
        .children_with_tokens()
        .filter_map(rowan::NodeOrToken::into_token)
        .filter_map(|x| x.try_into().ok())
}
#[allow(unused)]
fn node_children<P, C>(parent: &P) -> impl Iterator<Item = C> + use<P, C>
where
    P: AstNode<Language = Lang>,
    C: AstNode<Language = Lang>,
{
    parent.syntax().children().filter_map(C::cast)
}
pub enum Item {
    UseItem(UseItem),
    DelItem(DelItem),
    DelAllItem(DelAllItem),
    LetItem(LetItem),
    SetItem(SetItem),
    CaseItem(CaseItem),
    Block(Block),
    ErrItem(ErrItem),
}
impl AstNode for Item {
    type Language = Lang;
    fn can_cast(kind: SK) -> bool {
        matches!(
            kind, SK::UseItem | SK::DelItem | SK::DelAllItem | SK::LetItem | SK::SetItem
            | SK::CaseItem | SK::Block | SK::ErrItem
        )
    }
    fn cast(node: SyntaxNode) -> Option<Self> {
        let ret = match node.kind() {
            SK::UseItem => Self::UseItem(UseItem(node)),
            SK::DelItem => Self::DelItem(DelItem(node)),
            SK::DelAllItem => Self::DelAllItem(DelAllItem(node)),
            SK::LetItem => Self::LetItem(LetItem(node)),
            SK::SetItem => Self::SetItem(SetItem(node)),
            SK::CaseItem => Self::CaseItem(CaseItem(node)),
            SK::Block => Self::Block(Block(node)),
            SK::ErrItem => Self::ErrItem(ErrItem(node)),
            _ => return None,
        };
        Some(ret)
    }
    fn syntax(&self) -> &SyntaxNode {
        match self {
            Self::UseItem(x) => x.syntax(),
            Self::DelItem(x) => x.syntax(),
            Self::DelAllItem(x) => x.syntax(),
            Self::LetItem(x) => x.syntax(),
            Self::SetItem(x) => x.syntax(),
            Self::CaseItem(x) => x.syntax(),
            Self::Block(x) => x.syntax(),
            Self::ErrItem(x) => x.syntax(),
        }
    }
}
pub enum ModKind {
    PubKw,
    FastKw,
}
impl ModKind {
    pub fn to_str(&self) -> &'static str {
        match *self {
            Self::PubKw => "pub",
            Self::FastKw => "fast",
        }
    }
}
pub struct Mod {
    pub token: SyntaxToken,
    pub kind: ModKind,
}
impl TryFrom<SyntaxToken> for Mod {
    type Error = ();
    fn try_from(token: SyntaxToken) -> Result<Self, Self::Error> {
        let kind = match token.kind() {
            SK::PubKw => ModKind::PubKw,
            SK::FastKw => ModKind::FastKw,
            _ => return Err(()),
        };
        Ok(Self { token, kind })
    }
}
pub enum Expr {
    NameRef(NameRef),
    NumLit(NumLit),
    Paren(Paren),
    Bin(Bin),
    Lambda(Lambda),
    Typed(Typed),
    Cond(Cond),
    Triple(Triple),
    Pick(Pick),
    Fold(Fold),
}
impl AstNode for Expr {
    type Language = Lang;
    fn can_cast(kind: SK) -> bool {
        matches!(
            kind, SK::NameRef | SK::NumLit | SK::Paren | SK::Bin | SK::Lambda | SK::Typed
            | SK::Cond | SK::Triple | SK::Pick | SK::Fold
        )
    }
    fn cast(node: SyntaxNode) -> Option<Self> {
        let ret = match node.kind() {
            SK::NameRef => Self::NameRef(NameRef(node)),
            SK::NumLit => Self::NumLit(NumLit(node)),
            SK::Paren => Self::Paren(Paren(node)),
            SK::Bin => Self::Bin(Bin(node)),
            SK::Lambda => Self::Lambda(Lambda(node)),
            SK::Typed => Self::Typed(Typed(node)),
            SK::Cond => Self::Cond(Cond(node)),
            SK::Triple => Self::Triple(Triple(node)),
            SK::Pick => Self::Pick(Pick(node)),
            SK::Fold => Self::Fold(Fold(node)),
            _ => return None,
        };
        Some(ret)
    }
    fn syntax(&self) -> &SyntaxNode {
        match self {
            Self::NameRef(x) => x.syntax(),
            Self::NumLit(x) => x.syntax(),
            Self::Paren(x) => x.syntax(),
            Self::Bin(x) => x.syntax(),
            Self::Lambda(x) => x.syntax(),
            Self::Typed(x) => x.syntax(),
            Self::Cond(x) => x.syntax(),
            Self::Triple(x) => x.syntax(),
            Self::Pick(x) => x.syntax(),
            Self::Fold(x) => x.syntax(),
        }
    }
}
pub enum Pat {
    AnyPat(AnyPat),
    NumPat(NumPat),
    NodePat(NodePat),
    OrPat(OrPat),
}
impl AstNode for Pat {
    type Language = Lang;
    fn can_cast(kind: SK) -> bool {
        matches!(kind, SK::AnyPat | SK::NumPat | SK::NodePat | SK::OrPat)
    }
    fn cast(node: SyntaxNode) -> Option<Self> {
        let ret = match node.kind() {
            SK::AnyPat => Self::AnyPat(AnyPat(node)),
            SK::NumPat => Self::NumPat(NumPat(node)),
            SK::NodePat => Self::NodePat(NodePat(node)),
            SK::OrPat => Self::OrPat(OrPat(node)),
            _ => return None,
        };
        Some(ret)
    }
    fn syntax(&self) -> &SyntaxNode {
        match self {
            Self::AnyPat(x) => x.syntax(),
            Self::NumPat(x) => x.syntax(),
            Self::NodePat(x) => x.syntax(),
            Self::OrPat(x) => x.syntax(),
        }
    }
}
pub enum OpKind {
    Plus,
    Star,
    PlusPlus,
    EqEq,
    EqEqEq,
    DotDot,
    Comma,
    Slash,
    Tick,
    Minus,
    MinusGt,
    Lt,
    LtEq,
    LtMinusGt,
    Gt,
    GtEq,
    Bang,
    BangEq,
    And,
    AndAnd,
    Percent,
    Carat,
    Tilde,
    Dollar,
    BarGt,
    AtAt,
    MinusDotMinus,
}
impl OpKind {
    pub fn to_str(&self) -> &'static str {
        match *self {
            Self::Plus => "+",
            Self::Star => "*",
            Self::PlusPlus => "++",
            Self::EqEq => "==",
            Self::EqEqEq => "===",
            Self::DotDot => "..",
            Self::Comma => ",",
            Self::Slash => "/",
            Self::Tick => "`",
            Self::Minus => "-",
            Self::MinusGt => "->",
            Self::Lt => "<",
            Self::LtEq => "<=",
            Self::LtMinusGt => "<->",
            Self::Gt => ">",
            Self::GtEq => ">=",
            Self::Bang => "!",
            Self::BangEq => "!=",
            Self::And => "&",
            Self::AndAnd => "&&",
            Self::Percent => "%",
            Self::Carat => "^",
            Self::Tilde => "~",
            Self::Dollar => "$",
            Self::BarGt => "|>",
            Self::AtAt => "@@",
            Self::MinusDotMinus => "-.-",
        }
    }
}
pub struct Op {
    pub token: SyntaxToken,
    pub kind: OpKind,
}
impl TryFrom<SyntaxToken> for Op {
    type Error = ();
    fn try_from(token: SyntaxToken) -> Result<Self, Self::Error> {
        let kind = match token.kind() {
            SK::Plus => OpKind::Plus,
            SK::Star => OpKind::Star,
            SK::PlusPlus => OpKind::PlusPlus,
            SK::EqEq => OpKind::EqEq,
            SK::EqEqEq => OpKind::EqEqEq,
            SK::DotDot => OpKind::DotDot,
            SK::Comma => OpKind::Comma,
            SK::Slash => OpKind::Slash,
            SK::Tick => OpKind::Tick,
            SK::Minus => OpKind::Minus,
            SK::MinusGt => OpKind::MinusGt,
            SK::Lt => OpKind::Lt,
            SK::LtEq => OpKind::LtEq,
            SK::LtMinusGt => OpKind::LtMinusGt,
            SK::Gt => OpKind::Gt,
            SK::GtEq => OpKind::GtEq,
            SK::Bang => OpKind::Bang,
            SK::BangEq => OpKind::BangEq,
            SK::And => OpKind::And,
            SK::AndAnd => OpKind::AndAnd,
            SK::Percent => OpKind::Percent,
            SK::Carat => OpKind::Carat,
            SK::Tilde => OpKind::Tilde,
            SK::Dollar => OpKind::Dollar,
            SK::BarGt => OpKind::BarGt,
            SK::AtAt => OpKind::AtAt,
            SK::MinusDotMinus => OpKind::MinusDotMinus,
            _ => return Err(()),
        };
        Ok(Self { token, kind })
    }
}
#[derive(Clone)]
pub struct Root(SyntaxNode);
impl Root {
    pub fn items(&self) -> impl Iterator<Item = Item> + use<> {
        node_children(self)
    }
}
impl std::fmt::Debug for Root {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.syntax().fmt(f)
    }
}
impl AstNode for Root {
    type Language = Lang;
    fn can_cast(kind: SK) -> bool {
        kind == SK::Root
    }
    fn cast(node: SyntaxNode) -> Option<Self> {
        Self::can_cast(node.kind()).then_some(Self(node))
    }
    fn syntax(&self) -> &SyntaxNode {
        &self.0
    }
}
pub struct Script(SyntaxNode);
impl Script {
    pub fn items(&self) -> impl Iterator<Item = Item> + use<> {
        node_children(self)
    }
}
impl AstNode for Script {
    type Language = Lang;
    fn can_cast(kind: SK) -> bool {
        kind == SK::Script
    }
    fn cast(node: SyntaxNode) -> Option<Self> {
        Self::can_cast(node.kind()).then_some(Self(node))
    }
    fn syntax(&self) -> &SyntaxNode {
        &self.0
    }
}
pub struct UseItem(SyntaxNode);
impl UseItem {
    pub fn use_kw(&self) -> Option<SyntaxToken> {
        tokens(self, SK::UseKw).next()
    }
    pub fn name(&self) -> Option<SyntaxToken> {
        tokens(self, SK::Name).next()
    }
    pub fn semicolon(&self) -> Option<SyntaxToken> {
        tokens(self, SK::Semicolon).next()
    }
    pub fn trail(&self) -> Option<Trail> {
        node_children(self).next()
    }
}
impl AstNode for UseItem {
    type Language = Lang;
    fn can_cast(kind: SK) -> bool {
        kind == SK::UseItem
    }
    fn cast(node: SyntaxNode) -> Option<Self> {
        Self::can_cast(node.kind()).then_some(Self(node))
    }
    fn syntax(&self) -> &SyntaxNode {
        &self.0
    }
}
pub struct DelItem(SyntaxNode);
impl DelItem {
    pub fn del_kw(&self) -> Option<SyntaxToken> {
        tokens(self, SK::DelKw).next()
    }
    pub fn name(&self) -> Option<SyntaxToken> {
        tokens(self, SK::Name).next()
    }
    pub fn semicolon(&self) -> Option<SyntaxToken> {
        tokens(self, SK::Semicolon).next()
    }
    pub fn trail(&self) -> Option<Trail> {
        node_children(self).next()
    }
}
impl AstNode for DelItem {
    type Language = Lang;
    fn can_cast(kind: SK) -> bool {
        kind == SK::DelItem
    }
    fn cast(node: SyntaxNode) -> Option<Self> {
        Self::can_cast(node.kind()).then_some(Self(node))
    }
    fn syntax(&self) -> &SyntaxNode {
        &self.0
    }
}
pub struct DelAllItem(SyntaxNode);
impl DelAllItem {
    pub fn del_all_kw(&self) -> Option<SyntaxToken> {
        tokens(self, SK::DelAllKw).next()
    }
    pub fn semicolon(&self) -> Option<SyntaxToken> {
        tokens(self, SK::Semicolon).next()
    }
    pub fn trail(&self) -> Option<Trail> {
        node_children(self).next()
    }
}
impl AstNode for DelAllItem {
    type Language = Lang;
    fn can_cast(kind: SK) -> bool {
        kind == SK::DelAllItem
    }
    fn cast(node: SyntaxNode) -> Option<Self> {
        Self::can_cast(node.kind()).then_some(Self(node))
    }
    fn syntax(&self) -> &SyntaxNode {
        &self.0
    }
}
pub struct LetItem(SyntaxNode);
impl LetItem {
    pub fn mods(&self) -> impl Iterator<Item = Mod> + use<> {
        token_children(self)
    }
    pub fn let_kw(&self) -> Option<SyntaxToken> {
        tokens(self, SK::LetKw).next()
    }
    pub fn name(&self) -> Option<SyntaxToken> {
        tokens(self, SK::Name).next()
    }
    pub fn ann(&self) -> Option<Ann> {
        node_children(self).next()
    }
    pub fn eq(&self) -> Option<SyntaxToken> {
        tokens(self, SK::Eq).next()
    }
    pub fn expr(&self) -> Option<Expr> {
        node_children(self).next()
    }
    pub fn semicolon(&self) -> Option<SyntaxToken> {
        tokens(self, SK::Semicolon).next()
    }
    pub fn trail(&self) -> Option<Trail> {
        node_children(self).next()
    }
}
impl AstNode for LetItem {
    type Language = Lang;
    fn can_cast(kind: SK) -> bool {
        kind == SK::LetItem
    }
    fn cast(node: SyntaxNode) -> Option<Self> {
        Self::can_cast(node.kind()).then_some(Self(node))
    }
    fn syntax(&self) -> &SyntaxNode {
        &self.0
    }
}
pub struct SetItem(SyntaxNode);
impl SetItem {
    pub fn names(&self) -> impl Iterator<Item = SyntaxToken> + use<> {
        tokens(self, SK::Name)
    }
    pub fn eq(&self) -> Option<SyntaxToken> {
        tokens(self, SK::Eq).next()
    }
    pub fn expr(&self) -> Option<Expr> {
        node_children(self).next()
    }
    pub fn semicolon(&self) -> Option<SyntaxToken> {
        tokens(self, SK::Semicolon).next()
    }
    pub fn trail(&self) -> Option<Trail> {
        node_children(self).next()
    }
}
impl AstNode for SetItem {
    type Language = Lang;
    fn can_cast(kind: SK) -> bool {
        kind == SK::SetItem
    }
    fn cast(node: SyntaxNode) -> Option<Self> {
        Self::can_cast(node.kind()).then_some(Self(node))
    }
    fn syntax(&self) -> &SyntaxNode {
        &self.0
    }
}
pub struct CaseItem(SyntaxNode);
impl CaseItem {
    pub fn case_kw(&self) -> Option<SyntaxToken> {
        tokens(self, SK::CaseKw).next()
    }
    pub fn num(&self) -> Option<SyntaxToken> {
        tokens(self, SK::Num).next()
    }
    pub fn l_curly(&self) -> Option<SyntaxToken> {
        tokens(self, SK::LCurly).next()
    }
    pub fn arms(&self) -> impl Iterator<Item = Arm> + use<> {
        node_children(self)
    }
    pub fn r_curly(&self) -> Option<SyntaxToken> {
        tokens(self, SK::RCurly).next()
    }
    pub fn trail(&self) -> Option<Trail> {
        node_children(self).next()
    }
}
impl AstNode for CaseItem {
    type Language = Lang;
    fn can_cast(kind: SK) -> bool {
        kind == SK::CaseItem
    }
    fn cast(node: SyntaxNode) -> Option<Self> {
        Self::can_cast(node.kind()).then_some(Self(node))
    }
    fn syntax(&self) -> &SyntaxNode {
        &self.0
    }
}
pub struct Block(SyntaxNode);
impl Block {
    pub fn l_curly(&self) -> Option<SyntaxToken> {
        tokens(self, SK::LCurly).next()
    }
    pub fn items(&self) -> impl Iterator<Item = Item> + use<> {
        node_children(self)
    }
    pub fn r_curly(&self) -> Option<SyntaxToken> {
        tokens(self, SK::RCurly).next()
    }
    pub fn trail(&self) -> Option<Trail> {
        node_children(self).next()
    }
}
impl AstNode for Block {
    type Language = Lang;
    fn can_cast(kind: SK) -> bool {
        kind == SK::Block
    }
    fn cast(node: SyntaxNode) -> Option<Self> {
        Self::can_cast(node.kind()).then_some(Self(node))
    }
    fn syntax(&self) -> &SyntaxNode {
        &self.0
    }
}
pub struct ErrItem(SyntaxNode);
impl ErrItem {
    pub fn bad(&self) -> Option<SyntaxToken> {
        tokens(self, SK::Bad).next()
    }
    pub fn trail(&self) -> Option<Trail> {
        node_children(self).next()
    }
}
impl AstNode for ErrItem {
    type Language = Lang;
    fn can_cast(kind: SK) -> bool {
        kind == SK::ErrItem
    }
    fn cast(node: SyntaxNode) -> Option<Self> {
        Self::can_cast(node.kind()).then_some(Self(node))
    }
    fn syntax(&self) -> &SyntaxNode {
        &self.0
    }
}
pub struct Trail(SyntaxNode);
impl Trail {
    pub fn semicolons(&self) -> impl Iterator<Item = SyntaxToken> + use<> {
        tokens(self, SK::Semicolon)
    }
}
impl AstNode for Trail {
    type Language = Lang;
    fn can_cast(kind: SK) -> bool {
        kind == SK::Trail
    }
    fn cast(node: SyntaxNode) -> Option<Self> {
        Self::can_cast(node.kind()).then_some(Self(node))
    }
    fn syntax(&self) -> &SyntaxNode {
        &self.0
    }
}
pub struct Ann(SyntaxNode);
impl Ann {
    pub fn colon(&self) -> Option<SyntaxToken> {
        tokens(self, SK::Colon).next()
    }
    pub fn ty(&self) -> Option<SyntaxToken> {
        tokens(self, SK::Name).next()
    }
}
impl AstNode for Ann {
    type Language = Lang;
    fn can_cast(kind: SK) -> bool {
        kind == SK::Ann
    }
    fn cast(node: SyntaxNode) -> Option<Self> {
        Self::can_cast(node.kind()).then_some(Self(node))
    }
    fn syntax(&self) -> &SyntaxNode {
        &self.0
    }
}
pub struct Arm(SyntaxNode);
impl Arm {
    pub fn pat(&self) -> Option<Pat> {
        node_children(self).next()
    }
    pub fn eq_gt(&self) -> Option<SyntaxToken> {
        tokens(self, SK::EqGt).next()
    }
    pub fn expr(&self) -> Option<Expr> {
        node_children(self).next()
    }
    pub fn semicolon(&self) -> Option<SyntaxToken> {
        tokens(self, SK::Semicolon).next()
    }
}
impl AstNode for Arm {
    type Language = Lang;
    fn can_cast(kind: SK) -> bool {
        kind == SK::Arm
    }
    fn cast(node: SyntaxNode) -> Option<Self> {
        Self::can_cast(node.kind()).then_some(Self(node))
    }
    fn syntax(&self) -> &SyntaxNode {
        &self.0
    }
}
pub struct AnyPat(SyntaxNode);
impl AnyPat {
    pub fn question(&self) -> Option<SyntaxToken> {
        tokens(self, SK::Question).next()
    }
}
impl AstNode for AnyPat {
    type Language = Lang;
    fn can_cast(kind: SK) -> bool {
        kind == SK::AnyPat
    }
    fn cast(node: SyntaxNode) -> Option<Self> {
        Self::can_cast(node.kind()).then_some(Self(node))
    }
    fn syntax(&self) -> &SyntaxNode {
        &self.0
    }
}
pub struct NumPat(SyntaxNode);
impl NumPat {
    pub fn num(&self) -> Option<SyntaxToken> {
        tokens(self, SK::Num).next()
    }
}
impl AstNode for NumPat {
    type Language = Lang;
    fn can_cast(kind: SK) -> bool {
        kind == SK::NumPat
    }
    fn cast(node: SyntaxNode) -> Option<Self> {
        Self::can_cast(node.kind()).then_some(Self(node))
    }
    fn syntax(&self) -> &SyntaxNode {
        &self.0
    }
}
pub struct NodePat(SyntaxNode);
impl NodePat {
    pub fn l_square(&self) -> Option<SyntaxToken> {
        tokens(self, SK::LSquare).next()
    }
    pub fn pats(&self) -> impl Iterator<Item = Pat> + use<> {
        node_children(self)
    }
    pub fn r_square(&self) -> Option<SyntaxToken> {
        tokens(self, SK::RSquare).next()
    }
}
impl AstNode for NodePat {
    type Language = Lang;
    fn can_cast(kind: SK) -> bool {
        kind == SK::NodePat
    }
    fn cast(node: SyntaxNode) -> Option<Self> {
        Self::can_cast(node.kind()).then_some(Self(node))
    }
    fn syntax(&self) -> &SyntaxNode {
        &self.0
    }
}
pub struct OrPat(SyntaxNode);
impl OrPat {
    pub fn lhs(&self) -> Option<Pat> {
        node_children(self).next()
    }
    pub fn bar(&self) -> Option<SyntaxToken> {
        tokens(self, SK::Bar).next()
    }
    pub fn rhs(&self) -> Option<Pat> {
        node_children(self).nth(1usize)
    }
}
impl AstNode for OrPat {
    type Language = Lang;
    fn can_cast(kind: SK) -> bool {
        kind == SK::OrPat
    }
    fn cast(node: SyntaxNode) -> Option<Self> {
        Self::can_cast(node.kind()).then_some(Self(node))
    }
    fn syntax(&self) -> &SyntaxNode {
        &self.0
    }
}
pub struct NameRef(SyntaxNode);
impl NameRef {
    pub fn name(&self) -> Option<SyntaxToken> {
        tokens(self, SK::Name).next()
    }
}
impl AstNode for NameRef {
    type Language = Lang;
    fn can_cast(kind: SK) -> bool {
        kind == SK::NameRef
    }
    fn cast(node: SyntaxNode) -> Option<Self> {
        Self::can_cast(node.kind()).then_some(Self(node))
    }
    fn syntax(&self) -> &SyntaxNode {
        &self.0
    }
}
pub struct NumLit(SyntaxNode);
impl NumLit {
    pub fn num(&self) -> Option<SyntaxToken> {
        tokens(self, SK::Num).next()
    }
}
impl AstNode for NumLit {
    type Language = Lang;
    fn can_cast(kind: SK) -> bool {
        kind == SK::NumLit
    }
    fn cast(node: SyntaxNode) -> Option<Self> {
        Self::can_cast(node.kind()).then_some(Self(node))
    }
    fn syntax(&self) -> &SyntaxNode {
        &self.0
    }
}
pub struct Paren(SyntaxNode);
impl Paren {
    pub fn l_round(&self) -> Option<SyntaxToken> {
        tokens(self, SK::LRound).next()
    }
    pub fn inner(&self) -> Option<Expr> {
        node_children(self).next()
    }
    pub fn r_round(&self) -> Option<SyntaxToken> {
        tokens(self, SK::RRound).next()
    }
}
impl AstNode for Paren {
    type Language = Lang;
    fn can_cast(kind: SK) -> bool {
        kind == SK::Paren
    }
    fn cast(node: SyntaxNode) -> Option<Self> {
        Self::can_cast(node.kind()).then_some(Self(node))
    }
    fn syntax(&self) -> &SyntaxNode {
        &self.0
    }
}
pub struct Bin(SyntaxNode);
impl Bin {
    pub fn lhs(&self) -> Option<Expr> {
        node_children(self).next()
    }
    pub fn op(&self) -> Option<Op> {
        token_children(self).next()
    }
    pub fn rhs(&self) -> Option<Expr> {
        node_children(self).nth(1usize)
    }
}
impl AstNode for Bin {
    type Language = Lang;
    fn can_cast(kind: SK) -> bool {
        kind == SK::Bin
    }
    fn cast(node: SyntaxNode) -> Option<Self> {
        Self::can_cast(node.kind()).then_some(Self(node))
    }
    fn syntax(&self) -> &SyntaxNode {
        &self.0
    }
}
pub struct Lambda(SyntaxNode);
impl Lambda {
    pub fn l_round(&self) -> Option<SyntaxToken> {
        tokens(self, SK::LRound).next()
    }
    pub fn params(&self) -> Option<Params> {
        node_children(self).next()
    }
    pub fn r_round(&self) -> Option<SyntaxToken> {
        tokens(self, SK::RRound).next()
    }
    pub fn eq_gt(&self) -> Option<SyntaxToken> {
        tokens(self, SK::EqGt).next()
    }
    pub fn body(&self) -> Option<Expr> {
        node_children(self).next()
    }
}
impl AstNode for Lambda {
    type Language = Lang;
    fn can_cast(kind: SK) -> bool {
        kind == SK::Lambda
    }
    fn cast(node: SyntaxNode) -> Option<Self> {
        Self::can_cast(node.kind()).then_some(Self(node))
    }
    fn syntax(&self) -> &SyntaxNode {
        &self.0
    }
}
pub struct Typed(SyntaxNode);
impl Typed {
    pub fn expr(&self) -> Option<Expr> {
        node_children(self).next()
    }
    pub fn colon(&self) -> Option<SyntaxToken> {
        tokens(self, SK::Colon).next()
    }
    pub fn ty(&self) -> Option<SyntaxToken> {
        tokens(self, SK::Name).next()
    }
}
impl AstNode for Typed {
    type Language = Lang;
    fn can_cast(kind: SK) -> bool {
        kind == SK::Typed
    }
    fn cast(node: SyntaxNode) -> Option<Self> {
        Self::can_cast(node.kind()).then_some(Self(node))
    }
    fn syntax(&self) -> &SyntaxNode {
        &self.0
    }
}
pub struct Cond(SyntaxNode);
impl Cond {
    pub fn if_kw(&self) -> Option<SyntaxToken> {
        tokens(self, SK::IfKw).next()
    }
    pub fn test(&self) -> Option<Expr> {
        node_children(self).next()
    }
    pub fn then_kw(&self) -> Option<SyntaxToken> {
        tokens(self, SK::ThenKw).next()
    }
    pub fn yes(&self) -> Option<Expr> {
        node_children(self).nth(1usize)
    }
    pub fn else_kw(&self) -> Option<SyntaxToken> {
        tokens(self, SK::ElseKw).next()
    }
    pub fn no(&self) -> Option<Expr> {
        node_children(self).nth(2usize)
    }
}
impl AstNode for Cond {
    type Language = Lang;
    fn can_cast(kind: SK) -> bool {
        kind == SK::Cond
    }
    fn cast(node: SyntaxNode) -> Option<Self> {
        Self::can_cast(node.kind()).then_some(Self(node))
    }
    fn syntax(&self) -> &SyntaxNode {
        &self.0
    }
}
pub struct Triple(SyntaxNode);
impl Triple {
    pub fn l_square(&self) -> Option<SyntaxToken> {
        tokens(self, SK::LSquare).next()
    }
    pub fn fst(&self) -> Option<SyntaxToken> {
        tokens(self, SK::Name).next()
    }
    pub fn snd(&self) -> Option<SyntaxToken> {
        tokens(self, SK::Name).nth(1usize)
    }
    pub fn thd(&self) -> Option<SyntaxToken> {
        tokens(self, SK::Name).nth(2usize)
    }
    pub fn name(&self) -> Option<SyntaxToken> {
        tokens(self, SK::Name).nth(3usize)
    }
    pub fn r_square(&self) -> Option<SyntaxToken> {
        tokens(self, SK::RSquare).next()
    }
}
impl AstNode for Triple {
    type Language = Lang;
    fn can_cast(kind: SK) -> bool {
        kind == SK::Triple
    }
    fn cast(node: SyntaxNode) -> Option<Self> {
        Self::can_cast(node.kind()).then_some(Self(node))
    }
    fn syntax(&self) -> &SyntaxNode {
        &self.0
    }
}
pub struct Pick(SyntaxNode);
impl Pick {
    pub fn expr(&self) -> Option<Expr> {
        node_children(self).next()
    }
    pub fn dot(&self) -> Option<SyntaxToken> {
        tokens(self, SK::Dot).next()
    }
    pub fn name(&self) -> Option<SyntaxToken> {
        tokens(self, SK::Name).next()
    }
}
impl AstNode for Pick {
    type Language = Lang;
    fn can_cast(kind: SK) -> bool {
        kind == SK::Pick
    }
    fn cast(node: SyntaxNode) -> Option<Self> {
        Self::can_cast(node.kind()).then_some(Self(node))
    }
    fn syntax(&self) -> &SyntaxNode {
        &self.0
    }
}
pub struct Fold(SyntaxNode);
impl Fold {
    pub fn question(&self) -> Option<SyntaxToken> {
        tokens(self, SK::Question).next()
    }
    pub fn fst(&self) -> Option<Op> {
        token_children(self).next()
    }
    pub fn op(&self) -> Option<Op> {
        token_children(self).nth(1usize)
    }
}
impl AstNode for Fold {
    type Language = Lang;
    fn can_cast(kind: SK) -> bool {
        kind == SK::Fold
    }
    fn cast(node: SyntaxNode) -> Option<Self> {
        Self::can_cast(node.kind()).then_some(Self(node))
    }
    fn syntax(&self) -> &SyntaxNode {
        &self.0
    }
}
pub struct Params(SyntaxNode);
impl Params {
    pub fn names(&self) -> impl Iterator<Item = SyntaxToken> + use<> {
        tokens(self, SK::Name)
    }
}
impl AstNode for Params {
    type Language = Lang;
    fn can_cast(kind: SK) -> bool {
        kind == SK::Params
    }
    fn cast(node: SyntaxNode) -> Option<Self> {
        Self::can_cast(node.kind()).then_some(Self(node))
    }
    fn syntax(&self) -> &SyntaxNode {
        &self.0
    }
}
