# FromStr / as_str / to_string are mutually inverse over the fixed text tables (10_tables.rs)
== fn lexer::Keyword::as_str lexer::Punctuator::as_str ast::BinaryOperator::as_str ast::LogicalOperator::as_str ast::UnaryOperator::as_str ast::UpdateOperator::as_str ast::AssignmentOperator::as_str ast::VariableKind::as_str
ens: r@ == crate::tables::Table::text(self)

== fn lexer::Keyword::is_allowed_as_identifier
begin: proof { lemma_ctx_bits(ctx.bits); }
ens: r == crate::lx::ident_allowed(*self, crate::lx::ctx_await(ctx), crate::lx::ctx_yield(ctx), crate::lx::ctx_strict(ctx))

== fn lexer::KeywordContext::empty
ens: r.bits == 0
== fn lexer::KeywordContext::bits
ens: r == self.bits
== fn lexer::KeywordContext::is_empty
ens: r == (self.bits == 0)
== fn lexer::KeywordContext::intersects
ens: r == ((self.bits & other.bits) != 0)
== fn lexer::KeywordContext::contains
ens: r == ((self.bits & other.bits) == other.bits)
== fn lexer::KeywordContext::bitor
ens: r.bits == (self.bits | other.bits)
== fn lexer::KeywordContext::bitor_assign lexer::KeywordContext::insert
ens: final(self).bits == (old(self).bits | other.bits)
== fn lexer::KeywordContext::remove
ens: final(self).bits == (old(self).bits & !other.bits)

== fn lexer::VxFromStr@Keyword::from_str lexer::VxFromStr@Punctuator::from_str ast::VxFromStr@BinaryOperator::from_str ast::VxFromStr@LogicalOperator::from_str ast::VxFromStr@UnaryOperator::from_str ast::VxFromStr@UpdateOperator::from_str ast::VxFromStr@AssignmentOperator::from_str ast::VxFromStr@VariableKind::from_str
begin: broadcast use crate::vx::axiom_str_ext;
