// The span of a node: the `span` field of a struct, the span of the variant's node for an enumeration.
verus! { pub mod sp { use vstd::prelude::*; use crate::fajt_ast::*;
pub trait VxSp { spec fn sp(&self) -> Span; }
/// `x` spans from `a` to `b`
pub open spec fn spans<T: VxSp>(x: T, a: int, b: int) -> bool { x.sp().start == a && x.sp().end == b }
pub open spec fn prog_span(p: Program) -> Span { match p { Program::Script(b) => b.span, Program::Module(b) => b.span } }
impl<T: VxSp> VxSp for Box<T> { open spec fn sp(&self) -> Span { (**self).sp() } }
impl VxSp for BindingPattern { open spec fn sp(&self) -> Span { #[allow(unreachable_patterns)] match *self { BindingPattern::Ident(v) => v.sp(), BindingPattern::Array(v) => v.sp(), BindingPattern::Object(v) => v.sp(), _ => arbitrary() } } }
impl VxSp for ArrayBinding { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for ObjectBinding { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for SingleNameBinding { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for NamedBinding { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for BindingElement { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for Expr { open spec fn sp(&self) -> Span { #[allow(unreachable_patterns)] match *self { Expr::ArrowFunction(v) => v.sp(), Expr::Assignment(v) => v.sp(), Expr::Await(v) => v.sp(), Expr::Binary(v) => v.sp(), Expr::Call(v) => v.sp(), Expr::Class(v) => v.sp(), Expr::Conditional(v) => v.sp(), Expr::Function(v) => v.sp(), Expr::IdentRef(v) => v.sp(), Expr::Literal(v) => v.sp(), Expr::Logical(v) => v.sp(), Expr::Member(v) => v.sp(), Expr::MetaProperty(v) => v.sp(), Expr::New(v) => v.sp(), Expr::OptionalCall(v) => v.sp(), Expr::OptionalMember(v) => v.sp(), Expr::Parenthesized(v) => v.sp(), Expr::Sequence(v) => v.sp(), Expr::TaggedTemplate(v) => v.sp(), Expr::This(v) => v.sp(), Expr::Unary(v) => v.sp(), Expr::Update(v) => v.sp(), Expr::Yield(v) => v.sp(), _ => arbitrary() } } }
impl VxSp for ExprLiteral { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for ExprThis { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for ExprBinary { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for ExprLogical { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for ExprUnary { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for ExprUpdate { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for ExprYield { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for ExprConditional { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for ExprAwait { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for ExprSequence { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for ExprFunction { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for ExprArrowFunction { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for ExprParenthesized { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for ExprMember { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for ExprOptionalMember { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for Super { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for ExprMetaProperty { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for ExprNew { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for ExprAssignment { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for ExprCall { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for ExprOptionalCall { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for ExprTaggedTemplate { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for PatternOrExpr { open spec fn sp(&self) -> Span { #[allow(unreachable_patterns)] match *self { PatternOrExpr::Expr(v) => v.sp(), PatternOrExpr::AssignmentPattern(v) => v.sp(), _ => arbitrary() } } }
impl VxSp for AssignmentPattern { open spec fn sp(&self) -> Span { #[allow(unreachable_patterns)] match *self { AssignmentPattern::Array(v) => v.sp(), AssignmentPattern::Object(v) => v.sp(), _ => arbitrary() } } }
impl VxSp for ArrayAssignmentPattern { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for AssignmentElement { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for ObjectAssignmentPattern { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for SingleNameAssignmentProp { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for NamedAssignmentProp { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for DeclClass { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for ExprClass { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for ClassElement { open spec fn sp(&self) -> Span { #[allow(unreachable_patterns)] match *self { ClassElement::Method(v) => v.sp(), _ => arbitrary() } } }
impl VxSp for NamedProperty { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for MethodDefinition { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for Stmt { open spec fn sp(&self) -> Span { #[allow(unreachable_patterns)] match *self { Stmt::Block(v) => v.sp(), Stmt::Break(v) => v.sp(), Stmt::Continue(v) => v.sp(), Stmt::Debugger(v) => v.sp(), Stmt::DoWhile(v) => v.sp(), Stmt::Empty(v) => v.sp(), Stmt::Expr(v) => v.sp(), Stmt::For(v) => v.sp(), Stmt::ForIn(v) => v.sp(), Stmt::ForOf(v) => v.sp(), Stmt::If(v) => v.sp(), Stmt::Labeled(v) => v.sp(), Stmt::Return(v) => v.sp(), Stmt::Switch(v) => v.sp(), Stmt::Throw(v) => v.sp(), Stmt::Try(v) => v.sp(), Stmt::Variable(v) => v.sp(), Stmt::While(v) => v.sp(), Stmt::With(v) => v.sp(), Stmt::ClassDecl(v) => v.sp(), Stmt::FunctionDecl(v) => v.sp(), Stmt::ImportDecl(v) => v.sp(), Stmt::ExportDecl(v) => v.sp(), _ => arbitrary() } } }
impl VxSp for StmtExpr { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for DeclFunction { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for Body { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for FormalParameters { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for StmtBlock { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for StmtEmpty { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for StmtVariable { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for VariableDeclaration { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for StmtReturn { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for StmtBreak { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for StmtContinue { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for StmtThrow { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for StmtDebugger { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for StmtIf { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for StmtWith { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for StmtTry { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for CatchClause { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for StmtSwitch { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for SwitchCase { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for StmtDoWhile { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for StmtWhile { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for StmtFor { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for StmtForIn { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for StmtForOf { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for ForBinding { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for StmtLabeled { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for DeclImport { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for NamedImport { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for DeclExport { open spec fn sp(&self) -> Span { #[allow(unreachable_patterns)] match *self { DeclExport::Decl(v) => v.sp(), DeclExport::DefaultExpr(v) => v.sp(), DeclExport::DefaultDecl(v) => v.sp(), DeclExport::Named(v) => v.sp(), DeclExport::Namespace(v) => v.sp(), _ => arbitrary() } } }
impl VxSp for ExportDecl { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for ExportDefaultDecl { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for ExportDefaultExpr { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for ExportNamed { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for ExportNamespace { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for NamedExport { open spec fn sp(&self) -> Span { self.span } }
impl VxSp for Ident { open spec fn sp(&self) -> Span { self.span } }
} }
