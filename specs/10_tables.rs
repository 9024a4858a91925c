// Text tables of the keyword, punctuator and operator enumerations, and what FromStr / as_str / to_string must do
// with them.
verus! {
pub mod tables {
use vstd::prelude::*;
pub trait Table: Sized { spec fn text(&self) -> Seq<char>; }
impl Table for crate::fajt_ast::BinaryOperator {
    open spec fn text(&self) -> Seq<char> {
        match self {
            crate::fajt_ast::BinaryOperator::Plus => "+"@,
            crate::fajt_ast::BinaryOperator::Minus => "-"@,
            crate::fajt_ast::BinaryOperator::Multiplication => "*"@,
            crate::fajt_ast::BinaryOperator::Division => "/"@,
            crate::fajt_ast::BinaryOperator::Modulus => "%"@,
            crate::fajt_ast::BinaryOperator::Exponent => "**"@,
            crate::fajt_ast::BinaryOperator::ShiftLeft => "<<"@,
            crate::fajt_ast::BinaryOperator::ShiftRight => ">>"@,
            crate::fajt_ast::BinaryOperator::ShiftRightUnsigned => ">>>"@,
            crate::fajt_ast::BinaryOperator::LessThan => "<"@,
            crate::fajt_ast::BinaryOperator::MoreThan => ">"@,
            crate::fajt_ast::BinaryOperator::LessThanEquals => "<="@,
            crate::fajt_ast::BinaryOperator::MoreThanEquals => ">="@,
            crate::fajt_ast::BinaryOperator::InstanceOf => "instanceof"@,
            crate::fajt_ast::BinaryOperator::In => "in"@,
            crate::fajt_ast::BinaryOperator::Equal => "=="@,
            crate::fajt_ast::BinaryOperator::NotEqual => "!="@,
            crate::fajt_ast::BinaryOperator::StrictEqual => "==="@,
            crate::fajt_ast::BinaryOperator::StrictNotEqual => "!=="@,
            crate::fajt_ast::BinaryOperator::BitwiseAnd => "&"@,
            crate::fajt_ast::BinaryOperator::BitwiseXOR => "^"@,
            crate::fajt_ast::BinaryOperator::BitwiseOR => "|"@,
        }
    }
}
impl Table for crate::fajt_ast::LogicalOperator {
    open spec fn text(&self) -> Seq<char> {
        match self {
            crate::fajt_ast::LogicalOperator::And => "&&"@,
            crate::fajt_ast::LogicalOperator::Or => "||"@,
            crate::fajt_ast::LogicalOperator::Coalesce => "??"@,
        }
    }
}
impl Table for crate::fajt_ast::UnaryOperator {
    open spec fn text(&self) -> Seq<char> {
        match self {
            crate::fajt_ast::UnaryOperator::Delete => "delete"@,
            crate::fajt_ast::UnaryOperator::Void => "void"@,
            crate::fajt_ast::UnaryOperator::Typeof => "typeof"@,
            crate::fajt_ast::UnaryOperator::Plus => "+"@,
            crate::fajt_ast::UnaryOperator::Minus => "-"@,
            crate::fajt_ast::UnaryOperator::BitwiseNot => "~"@,
            crate::fajt_ast::UnaryOperator::Not => "!"@,
        }
    }
}
impl Table for crate::fajt_ast::UpdateOperator {
    open spec fn text(&self) -> Seq<char> {
        match self {
            crate::fajt_ast::UpdateOperator::Increase => "++"@,
            crate::fajt_ast::UpdateOperator::Decrease => "--"@,
        }
    }
}
impl Table for crate::fajt_ast::AssignmentOperator {
    open spec fn text(&self) -> Seq<char> {
        match self {
            crate::fajt_ast::AssignmentOperator::Assign => "="@,
            crate::fajt_ast::AssignmentOperator::Multiply => "*="@,
            crate::fajt_ast::AssignmentOperator::Power => "**="@,
            crate::fajt_ast::AssignmentOperator::Divide => "/="@,
            crate::fajt_ast::AssignmentOperator::Modulus => "%="@,
            crate::fajt_ast::AssignmentOperator::Add => "+="@,
            crate::fajt_ast::AssignmentOperator::Sub => "-="@,
            crate::fajt_ast::AssignmentOperator::LeftShift => "<<="@,
            crate::fajt_ast::AssignmentOperator::RightShift => ">>="@,
            crate::fajt_ast::AssignmentOperator::UnsignedRightShift => ">>>="@,
            crate::fajt_ast::AssignmentOperator::BitwiseAnd => "&="@,
            crate::fajt_ast::AssignmentOperator::BitwiseXOr => "^="@,
            crate::fajt_ast::AssignmentOperator::BitwiseOr => "|="@,
        }
    }
}
impl Table for crate::fajt_ast::VariableKind {
    open spec fn text(&self) -> Seq<char> {
        match self {
            crate::fajt_ast::VariableKind::Const => "const"@,
            crate::fajt_ast::VariableKind::Let => "let"@,
            crate::fajt_ast::VariableKind::Var => "var"@,
        }
    }
}
impl Table for crate::fajt_lexer::token::Keyword {
    open spec fn text(&self) -> Seq<char> {
        match self {
            crate::fajt_lexer::token::Keyword::Await => "await"@,
            crate::fajt_lexer::token::Keyword::As => "as"@,
            crate::fajt_lexer::token::Keyword::Async => "async"@,
            crate::fajt_lexer::token::Keyword::Break => "break"@,
            crate::fajt_lexer::token::Keyword::Case => "case"@,
            crate::fajt_lexer::token::Keyword::Catch => "catch"@,
            crate::fajt_lexer::token::Keyword::Class => "class"@,
            crate::fajt_lexer::token::Keyword::Const => "const"@,
            crate::fajt_lexer::token::Keyword::Continue => "continue"@,
            crate::fajt_lexer::token::Keyword::Debugger => "debugger"@,
            crate::fajt_lexer::token::Keyword::Default => "default"@,
            crate::fajt_lexer::token::Keyword::Delete => "delete"@,
            crate::fajt_lexer::token::Keyword::Do => "do"@,
            crate::fajt_lexer::token::Keyword::Else => "else"@,
            crate::fajt_lexer::token::Keyword::Enum => "enum"@,
            crate::fajt_lexer::token::Keyword::Export => "export"@,
            crate::fajt_lexer::token::Keyword::Extends => "extends"@,
            crate::fajt_lexer::token::Keyword::False => "false"@,
            crate::fajt_lexer::token::Keyword::Finally => "finally"@,
            crate::fajt_lexer::token::Keyword::For => "for"@,
            crate::fajt_lexer::token::Keyword::From => "from"@,
            crate::fajt_lexer::token::Keyword::Function => "function"@,
            crate::fajt_lexer::token::Keyword::Get => "get"@,
            crate::fajt_lexer::token::Keyword::If => "if"@,
            crate::fajt_lexer::token::Keyword::Implements => "implements"@,
            crate::fajt_lexer::token::Keyword::Import => "import"@,
            crate::fajt_lexer::token::Keyword::In => "in"@,
            crate::fajt_lexer::token::Keyword::Instanceof => "instanceof"@,
            crate::fajt_lexer::token::Keyword::Interface => "interface"@,
            crate::fajt_lexer::token::Keyword::Let => "let"@,
            crate::fajt_lexer::token::Keyword::New => "new"@,
            crate::fajt_lexer::token::Keyword::Null => "null"@,
            crate::fajt_lexer::token::Keyword::Of => "of"@,
            crate::fajt_lexer::token::Keyword::Package => "package"@,
            crate::fajt_lexer::token::Keyword::Private => "private"@,
            crate::fajt_lexer::token::Keyword::Protected => "protected"@,
            crate::fajt_lexer::token::Keyword::Public => "public"@,
            crate::fajt_lexer::token::Keyword::Return => "return"@,
            crate::fajt_lexer::token::Keyword::Set => "set"@,
            crate::fajt_lexer::token::Keyword::Static => "static"@,
            crate::fajt_lexer::token::Keyword::Super => "super"@,
            crate::fajt_lexer::token::Keyword::Switch => "switch"@,
            crate::fajt_lexer::token::Keyword::Target => "target"@,
            crate::fajt_lexer::token::Keyword::This => "this"@,
            crate::fajt_lexer::token::Keyword::Throw => "throw"@,
            crate::fajt_lexer::token::Keyword::True => "true"@,
            crate::fajt_lexer::token::Keyword::Try => "try"@,
            crate::fajt_lexer::token::Keyword::Typeof => "typeof"@,
            crate::fajt_lexer::token::Keyword::Var => "var"@,
            crate::fajt_lexer::token::Keyword::Void => "void"@,
            crate::fajt_lexer::token::Keyword::While => "while"@,
            crate::fajt_lexer::token::Keyword::With => "with"@,
            crate::fajt_lexer::token::Keyword::Yield => "yield"@,
        }
    }
}
impl Table for crate::fajt_lexer::token::Punctuator {
    open spec fn text(&self) -> Seq<char> {
        match self {
            crate::fajt_lexer::token::Punctuator::ParenOpen => "("@,
            crate::fajt_lexer::token::Punctuator::ParenClose => ")"@,
            crate::fajt_lexer::token::Punctuator::BraceOpen => "["@,
            crate::fajt_lexer::token::Punctuator::BraceClose => "]"@,
            crate::fajt_lexer::token::Punctuator::BracketOpen => "{"@,
            crate::fajt_lexer::token::Punctuator::BracketClose => "}"@,
            crate::fajt_lexer::token::Punctuator::Dot => "."@,
            crate::fajt_lexer::token::Punctuator::TripleDot => "..."@,
            crate::fajt_lexer::token::Punctuator::SemiColon => ";"@,
            crate::fajt_lexer::token::Punctuator::Comma => ","@,
            crate::fajt_lexer::token::Punctuator::LessThan => "<"@,
            crate::fajt_lexer::token::Punctuator::DoubleLessThan => "<<"@,
            crate::fajt_lexer::token::Punctuator::GreaterThan => ">"@,
            crate::fajt_lexer::token::Punctuator::DoubleGreaterThan => ">>"@,
            crate::fajt_lexer::token::Punctuator::TripleGreaterThan => ">>>"@,
            crate::fajt_lexer::token::Punctuator::Equal => "="@,
            crate::fajt_lexer::token::Punctuator::DoubleEqual => "=="@,
            crate::fajt_lexer::token::Punctuator::LessEqual => "<="@,
            crate::fajt_lexer::token::Punctuator::DoubleLessEqual => "<<="@,
            crate::fajt_lexer::token::Punctuator::GreaterEqual => ">="@,
            crate::fajt_lexer::token::Punctuator::DoubleGreaterEqual => ">>="@,
            crate::fajt_lexer::token::Punctuator::TripleGreaterEqual => ">>>="@,
            crate::fajt_lexer::token::Punctuator::EqualGreater => "=>"@,
            crate::fajt_lexer::token::Punctuator::NotEqual => "!="@,
            crate::fajt_lexer::token::Punctuator::PlusEqual => "+="@,
            crate::fajt_lexer::token::Punctuator::MinusEqual => "-="@,
            crate::fajt_lexer::token::Punctuator::StarEqual => "*="@,
            crate::fajt_lexer::token::Punctuator::DoubleStarEqual => "**="@,
            crate::fajt_lexer::token::Punctuator::SlashEqual => "/="@,
            crate::fajt_lexer::token::Punctuator::PercentEqual => "%="@,
            crate::fajt_lexer::token::Punctuator::PipeEqual => "|="@,
            crate::fajt_lexer::token::Punctuator::CaretEqual => "^="@,
            crate::fajt_lexer::token::Punctuator::AmpersandEqual => "&="@,
            crate::fajt_lexer::token::Punctuator::TripleEqual => "==="@,
            crate::fajt_lexer::token::Punctuator::ExclamationDoubleEqual => "!=="@,
            crate::fajt_lexer::token::Punctuator::Plus => "+"@,
            crate::fajt_lexer::token::Punctuator::DoublePlus => "++"@,
            crate::fajt_lexer::token::Punctuator::Minus => "-"@,
            crate::fajt_lexer::token::Punctuator::DoubleMinus => "--"@,
            crate::fajt_lexer::token::Punctuator::Star => "*"@,
            crate::fajt_lexer::token::Punctuator::DoubleStar => "**"@,
            crate::fajt_lexer::token::Punctuator::Slash => "/"@,
            crate::fajt_lexer::token::Punctuator::Percent => "%"@,
            crate::fajt_lexer::token::Punctuator::Ampersand => "&"@,
            crate::fajt_lexer::token::Punctuator::DoubleAmpersand => "&&"@,
            crate::fajt_lexer::token::Punctuator::Pipe => "|"@,
            crate::fajt_lexer::token::Punctuator::DoublePipe => "||"@,
            crate::fajt_lexer::token::Punctuator::Caret => "^"@,
            crate::fajt_lexer::token::Punctuator::Exclamation => "!"@,
            crate::fajt_lexer::token::Punctuator::Tilde => "~"@,
            crate::fajt_lexer::token::Punctuator::QuestionMark => "?"@,
            crate::fajt_lexer::token::Punctuator::DoubleQuestionMark => "??"@,
            crate::fajt_lexer::token::Punctuator::QuestionMarkDot => "?."@,
            crate::fajt_lexer::token::Punctuator::Colon => ":"@,
        }
    }
}
/// different keywords have different texts
pub open spec fn kw_code(w: Seq<char>) -> int { ((w.len()) * 256 + (if 0 < w.len() { w[0] as int } else { 0 })) * 256 + (if 1 < w.len() { w[1] as int } else { 0 }) }
pub open spec fn kw_const(k: crate::fajt_lexer::token::Keyword) -> int {
    match k {
        crate::fajt_lexer::token::Keyword::Await => 352631,
        crate::fajt_lexer::token::Keyword::As => 156019,
        crate::fajt_lexer::token::Keyword::Async => 352627,
        crate::fajt_lexer::token::Keyword::Break => 352882,
        crate::fajt_lexer::token::Keyword::Case => 287585,
        crate::fajt_lexer::token::Keyword::Catch => 353121,
        crate::fajt_lexer::token::Keyword::Class => 353132,
        crate::fajt_lexer::token::Keyword::Const => 353135,
        crate::fajt_lexer::token::Keyword::Continue => 549743,
        crate::fajt_lexer::token::Keyword::Debugger => 549989,
        crate::fajt_lexer::token::Keyword::Default => 484453,
        crate::fajt_lexer::token::Keyword::Delete => 418917,
        crate::fajt_lexer::token::Keyword::Do => 156783,
        crate::fajt_lexer::token::Keyword::Else => 288108,
        crate::fajt_lexer::token::Keyword::Enum => 288110,
        crate::fajt_lexer::token::Keyword::Export => 419192,
        crate::fajt_lexer::token::Keyword::Extends => 484728,
        crate::fajt_lexer::token::Keyword::False => 353889,
        crate::fajt_lexer::token::Keyword::Finally => 484969,
        crate::fajt_lexer::token::Keyword::For => 222831,
        crate::fajt_lexer::token::Keyword::From => 288370,
        crate::fajt_lexer::token::Keyword::Function => 550517,
        crate::fajt_lexer::token::Keyword::Get => 223077,
        crate::fajt_lexer::token::Keyword::If => 158054,
        crate::fajt_lexer::token::Keyword::Implements => 682349,
        crate::fajt_lexer::token::Keyword::Import => 420205,
        crate::fajt_lexer::token::Keyword::In => 158062,
        crate::fajt_lexer::token::Keyword::Instanceof => 682350,
        crate::fajt_lexer::token::Keyword::Interface => 616814,
        crate::fajt_lexer::token::Keyword::Let => 224357,
        crate::fajt_lexer::token::Keyword::New => 224869,
        crate::fajt_lexer::token::Keyword::Null => 290421,
        crate::fajt_lexer::token::Keyword::Of => 159590,
        crate::fajt_lexer::token::Keyword::Package => 487521,
        crate::fajt_lexer::token::Keyword::Private => 487538,
        crate::fajt_lexer::token::Keyword::Protected => 618610,
        crate::fajt_lexer::token::Keyword::Public => 422005,
        crate::fajt_lexer::token::Keyword::Return => 422501,
        crate::fajt_lexer::token::Keyword::Set => 226149,
        crate::fajt_lexer::token::Keyword::Static => 422772,
        crate::fajt_lexer::token::Keyword::Super => 357237,
        crate::fajt_lexer::token::Keyword::Switch => 422775,
        crate::fajt_lexer::token::Keyword::Target => 423009,
        crate::fajt_lexer::token::Keyword::This => 291944,
        crate::fajt_lexer::token::Keyword::Throw => 357480,
        crate::fajt_lexer::token::Keyword::True => 291954,
        crate::fajt_lexer::token::Keyword::Try => 226418,
        crate::fajt_lexer::token::Keyword::Typeof => 423033,
        crate::fajt_lexer::token::Keyword::Var => 226913,
        crate::fajt_lexer::token::Keyword::Void => 292463,
        crate::fajt_lexer::token::Keyword::While => 358248,
        crate::fajt_lexer::token::Keyword::With => 292713,
        crate::fajt_lexer::token::Keyword::Yield => 358761,
    }
}
proof fn lemma_kw_code(k: crate::fajt_lexer::token::Keyword)
    ensures kw_code(k.text()) == kw_const(k),
{
    match k {
        crate::fajt_lexer::token::Keyword::Await => { reveal_strlit("await"); },
        crate::fajt_lexer::token::Keyword::As => { reveal_strlit("as"); },
        crate::fajt_lexer::token::Keyword::Async => { reveal_strlit("async"); },
        crate::fajt_lexer::token::Keyword::Break => { reveal_strlit("break"); },
        crate::fajt_lexer::token::Keyword::Case => { reveal_strlit("case"); },
        crate::fajt_lexer::token::Keyword::Catch => { reveal_strlit("catch"); },
        crate::fajt_lexer::token::Keyword::Class => { reveal_strlit("class"); },
        crate::fajt_lexer::token::Keyword::Const => { reveal_strlit("const"); },
        crate::fajt_lexer::token::Keyword::Continue => { reveal_strlit("continue"); },
        crate::fajt_lexer::token::Keyword::Debugger => { reveal_strlit("debugger"); },
        crate::fajt_lexer::token::Keyword::Default => { reveal_strlit("default"); },
        crate::fajt_lexer::token::Keyword::Delete => { reveal_strlit("delete"); },
        crate::fajt_lexer::token::Keyword::Do => { reveal_strlit("do"); },
        crate::fajt_lexer::token::Keyword::Else => { reveal_strlit("else"); },
        crate::fajt_lexer::token::Keyword::Enum => { reveal_strlit("enum"); },
        crate::fajt_lexer::token::Keyword::Export => { reveal_strlit("export"); },
        crate::fajt_lexer::token::Keyword::Extends => { reveal_strlit("extends"); },
        crate::fajt_lexer::token::Keyword::False => { reveal_strlit("false"); },
        crate::fajt_lexer::token::Keyword::Finally => { reveal_strlit("finally"); },
        crate::fajt_lexer::token::Keyword::For => { reveal_strlit("for"); },
        crate::fajt_lexer::token::Keyword::From => { reveal_strlit("from"); },
        crate::fajt_lexer::token::Keyword::Function => { reveal_strlit("function"); },
        crate::fajt_lexer::token::Keyword::Get => { reveal_strlit("get"); },
        crate::fajt_lexer::token::Keyword::If => { reveal_strlit("if"); },
        crate::fajt_lexer::token::Keyword::Implements => { reveal_strlit("implements"); },
        crate::fajt_lexer::token::Keyword::Import => { reveal_strlit("import"); },
        crate::fajt_lexer::token::Keyword::In => { reveal_strlit("in"); },
        crate::fajt_lexer::token::Keyword::Instanceof => { reveal_strlit("instanceof"); },
        crate::fajt_lexer::token::Keyword::Interface => { reveal_strlit("interface"); },
        crate::fajt_lexer::token::Keyword::Let => { reveal_strlit("let"); },
        crate::fajt_lexer::token::Keyword::New => { reveal_strlit("new"); },
        crate::fajt_lexer::token::Keyword::Null => { reveal_strlit("null"); },
        crate::fajt_lexer::token::Keyword::Of => { reveal_strlit("of"); },
        crate::fajt_lexer::token::Keyword::Package => { reveal_strlit("package"); },
        crate::fajt_lexer::token::Keyword::Private => { reveal_strlit("private"); },
        crate::fajt_lexer::token::Keyword::Protected => { reveal_strlit("protected"); },
        crate::fajt_lexer::token::Keyword::Public => { reveal_strlit("public"); },
        crate::fajt_lexer::token::Keyword::Return => { reveal_strlit("return"); },
        crate::fajt_lexer::token::Keyword::Set => { reveal_strlit("set"); },
        crate::fajt_lexer::token::Keyword::Static => { reveal_strlit("static"); },
        crate::fajt_lexer::token::Keyword::Super => { reveal_strlit("super"); },
        crate::fajt_lexer::token::Keyword::Switch => { reveal_strlit("switch"); },
        crate::fajt_lexer::token::Keyword::Target => { reveal_strlit("target"); },
        crate::fajt_lexer::token::Keyword::This => { reveal_strlit("this"); },
        crate::fajt_lexer::token::Keyword::Throw => { reveal_strlit("throw"); },
        crate::fajt_lexer::token::Keyword::True => { reveal_strlit("true"); },
        crate::fajt_lexer::token::Keyword::Try => { reveal_strlit("try"); },
        crate::fajt_lexer::token::Keyword::Typeof => { reveal_strlit("typeof"); },
        crate::fajt_lexer::token::Keyword::Var => { reveal_strlit("var"); },
        crate::fajt_lexer::token::Keyword::Void => { reveal_strlit("void"); },
        crate::fajt_lexer::token::Keyword::While => { reveal_strlit("while"); },
        crate::fajt_lexer::token::Keyword::With => { reveal_strlit("with"); },
        crate::fajt_lexer::token::Keyword::Yield => { reveal_strlit("yield"); },
    }
}
pub proof fn lemma_kw_nonempty(a: crate::fajt_lexer::token::Keyword)
    ensures a.text().len() > 0,
{ lemma_kw_code(a); }
pub proof fn lemma_keyword_inj(a: crate::fajt_lexer::token::Keyword, b: crate::fajt_lexer::token::Keyword)
    requires a.text() == b.text(),
    ensures a == b,
{
    lemma_kw_code(a); lemma_kw_code(b);
}
}
}
