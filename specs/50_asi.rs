// Automatic semicolon insertion
verus! { pub mod asi { use vstd::prelude::*; use crate::ps::*; use crate::fajt_lexer::token::*; use crate::fajt_common::io::*; use crate::fajt_parser::*; use crate::fajt_lexer::LexerState;
pub open spec fn SEMI() -> TokenValue { TokenValue::Punctuator(Punctuator::SemiColon) }
pub open spec fn CLOSE() -> TokenValue { TokenValue::Punctuator(Punctuator::BracketClose) }
pub open spec fn val(t: Option<Token>, x: TokenValue) -> bool { t matches Some(u) && u.value == x }
pub open spec fn nl(t: Option<Token>) -> bool { t matches Some(u) && u.first_on_line }
/// the text is read to its end
pub open spec fn eof<I: PeekRead<Token, Error = crate::fajt_lexer::error::Error>>(r: PeekReader<Token, I>) -> bool { r.current matches Err(e) && e.kind is EndOfStream }
/// a semicolon may be inserted before the current token
pub open spec fn can_ins<I: PeekRead<Token, Error = crate::fajt_lexer::error::Error>>(r: PeekReader<Token, I>) -> bool { eof(r) || val(view(r).cur, CLOSE()) || nl(view(r).cur) }
/// a statement that ends with `;` is complete: the `;` was consumed, or one may be inserted here
pub open spec fn ended<I: PeekRead<Token, Error = crate::fajt_lexer::error::Error>>(r: PeekReader<Token, I>) -> bool { (view(r).lg.len() > 0 && view(r).lg.last().value == SEMI()) || can_ins(r) }
pub open spec fn ARROW() -> TokenValue { TokenValue::Punctuator(Punctuator::EqualGreater) }
pub open spec fn ASYNC() -> TokenValue { TokenValue::Keyword(Keyword::Async) }
pub open spec fn FUNCTION() -> TokenValue { TokenValue::Keyword(Keyword::Function) }
pub open spec fn STAR() -> TokenValue { TokenValue::Punctuator(Punctuator::Star) }
pub open spec fn no_more(t: Option<Token>) -> bool { no_operand(t) || val(t, TokenValue::Punctuator(Punctuator::ParenClose)) || val(t, TokenValue::Punctuator(Punctuator::BraceClose)) || val(t, TokenValue::Punctuator(Punctuator::Comma)) || val(t, TokenValue::Punctuator(Punctuator::Colon)) }
/// no operand can follow where the next token is `t`
pub open spec fn no_operand(t: Option<Token>) -> bool { t is None || val(t, SEMI()) || val(t, CLOSE()) || nl(t) }
} }
verus! { impl<'a, I> crate::fajt_parser::Parser<'a, I> where I: crate::fajt_common::io::PeekRead<crate::fajt_lexer::token::Token, Error = crate::fajt_lexer::error::Error>, I: crate::fajt_common::io::ReReadWithState<crate::fajt_lexer::token::Token, State = crate::fajt_lexer::LexerState, Error = crate::fajt_lexer::error::Error> {
    pub open spec fn can_ins(&self) -> bool { crate::asi::can_ins(*self.reader) }
    pub open spec fn eof(&self) -> bool { crate::asi::eof(*self.reader) }
    pub open spec fn ended(&self) -> bool { crate::asi::ended(*self.reader) }
} }
