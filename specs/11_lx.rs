verus! {
pub mod lx {
use vstd::prelude::*;
use crate::vx::*;
use crate::fajt_lexer::token::*;

pub open spec fn ctx_await(c: KeywordContext) -> bool { c.bits & 1 != 0 }
pub open spec fn ctx_yield(c: KeywordContext) -> bool { c.bits & 2 != 0 }
pub open spec fn ctx_strict(c: KeywordContext) -> bool { c.bits & 128 != 0 }

/// Which keywords may stand where an identifier is expected, given the three context conditions.
pub open spec fn ident_allowed(k: Keyword, in_await: bool, in_yield: bool, strict: bool) -> bool {
    match k {
        Keyword::As | Keyword::Async | Keyword::From | Keyword::Get | Keyword::Of | Keyword::Set | Keyword::Target => true,
        Keyword::Await => !in_await,
        Keyword::Yield => !in_yield && !strict,
        Keyword::Implements | Keyword::Interface | Keyword::Let | Keyword::Package | Keyword::Private
        | Keyword::Protected | Keyword::Public | Keyword::Static => !strict,
        _ => false,
    }
}
}
}
