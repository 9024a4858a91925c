== fn lexer::CodePoint@char::is_ecma_whitespace
ens: r == crate::lexspec::is_ws(*self)
== fn lexer::CodePoint@char::is_ecma_line_terminator
ens: r == crate::lexspec::is_lt(*self)
== fn lexer::CodePoint@char::is_start_of_identifier
ens: r == crate::lexspec::is_id_s(*self)
== fn lexer::CodePoint@char::is_part_of_identifier
ens: r == crate::lexspec::is_id_p(*self)

== template crate=lexer ; recv=mut ; type=Lexer
req: old(self).wf()
ens: final(self).same1(*old(self))
inv: 0 <= old(self).k() && self.same1(*old(self))
begin: broadcast use crate::lexspec::group_lex; assert(self.s().subrange(self.k(), self.k()) =~= Seq::<char>::empty());
lbegin *: broadcast use crate::lexspec::group_lex;
== template crate=lexer ; recv=ref ; type=Lexer
req: self.wf()

== fn lexer::Lexer::is_end
ens: r == (self.k() >= self.s().len())
== fn lexer::Lexer::skip_whitespaces
notemplate
req: old(self).wf()
inv: self.same(*old(self)) && old(self).k() <= self.k()
inv: forall|h: bool| crate::lexspec::sk(self.s(), self.k(), self.first_on_line, h) == #[trigger] crate::lexspec::sk(self.s(), old(self).k(), old(self).first_on_line, h)
inv: old(self).k() >= self.s().len() || !(crate::lexspec::is_ws(self.s()[old(self).k()]) || crate::lexspec::is_lt(self.s()[old(self).k()])) ==> self.k() == old(self).k() && self.first_on_line == old(self).first_on_line
lens: self.k() >= self.s().len() || !(crate::lexspec::is_ws(self.s()[self.k()]) || crate::lexspec::is_lt(self.s()[self.k()]))
ens: final(self).same(*old(self)) && old(self).k() <= final(self).k() && r is Ok
ens: forall|h: bool| crate::lexspec::sk(old(self).s(), final(self).k(), final(self).first_on_line, h) == #[trigger] crate::lexspec::sk(old(self).s(), old(self).k(), old(self).first_on_line, h)
ens: final(self).k() >= old(self).s().len() || !(crate::lexspec::is_ws(old(self).s()[final(self).k()]) || crate::lexspec::is_lt(old(self).s()[final(self).k()]))
ens: old(self).k() >= old(self).s().len() || !(crate::lexspec::is_ws(old(self).s()[old(self).k()]) || crate::lexspec::is_lt(old(self).s()[old(self).k()])) ==> final(self).k() == old(self).k() && final(self).first_on_line == old(self).first_on_line

== fn lexer::Lexer::skip_comments_and_white_spaces
notemplate
begin: reveal(crate::lexspec::skx);
lbegin *: reveal(crate::lexspec::skx);
req: old(self).wf()
inv: self.same(*old(self)) && old(self).k() <= self.k()
inv: crate::lexspec::sk(self.s(), self.k(), self.first_on_line, self.state.html_comment_allowed) == crate::lexspec::sk(self.s(), old(self).k(), old(self).first_on_line, self.state.html_comment_allowed)
lens: crate::lexspec::sk(self.s(), self.k(), self.first_on_line, self.state.html_comment_allowed) == Some((self.k(), self.first_on_line))
lens: self.k() >= self.s().len() || !(crate::lexspec::is_ws(self.s()[self.k()]) || crate::lexspec::is_lt(self.s()[self.k()]))
ens: final(self).same(*old(self)) && old(self).k() <= final(self).k()
ens: r is Ok <==> crate::lexspec::skx(old(self).s(), old(self).k(), old(self).first_on_line, old(self).state.html_comment_allowed) is Some
ens: r is Ok ==> crate::lexspec::skx(old(self).s(), old(self).k(), old(self).first_on_line, old(self).state.html_comment_allowed) == Some((final(self).k(), final(self).first_on_line))

== fn lexer::Lexer::at_html_comment
ens: r == crate::lexspec::html_open(self.s(), self.k())
== fn lexer::Lexer::skip_single_line_comment
req: old(self).k() + 1 < old(self).s().len()
ens: final(self).k() == crate::lexspec::next_line(old(self).s(), old(self).k() + 2)
== fn lexer::Lexer::skip_rest_of_line
begin: reveal(crate::lexspec::next_line);
ens: final(self).k() == crate::lexspec::next_line(old(self).s(), old(self).k())
== fn lexer::Lexer::skip_multi_line_comment
notemplate
begin: proof { crate::lexspec::lemma_room(self.s(), self.k(), 2); }
inv: span_start + 2 <= isize::MAX
req: old(self).wf() && crate::lexspec::ch(old(self).s(), old(self).k(), '/') && crate::lexspec::ch(old(self).s(), old(self).k() + 1, '*')
inv: self.same(*old(self)) && old(self).k() + 2 <= self.k()
invx: crate::lexspec::comment_end(self.s(), self.k()) == crate::lexspec::comment_end(self.s(), old(self).k() + 2)
invx: self.first_on_line == (old(self).first_on_line || crate::lexspec::has_lt(self.s(), old(self).k() + 2, self.k()))
lens: self.k() == crate::lexspec::comment_end(self.s(), old(self).k() + 2) && self.first_on_line == (old(self).first_on_line || crate::lexspec::has_lt(self.s(), old(self).k() + 2, self.k() - 2))
ens: final(self).same(*old(self)) && old(self).k() <= final(self).k()
ens: r is Ok <==> crate::lexspec::comment_end(old(self).s(), old(self).k() + 2) >= 0
ens: r is Ok ==> final(self).k() == crate::lexspec::comment_end(old(self).s(), old(self).k() + 2) && final(self).first_on_line == (old(self).first_on_line || crate::lexspec::has_lt(old(self).s(), old(self).k() + 2, final(self).k() - 2))

== fn lexer::Lexer::read_identifier_or_keyword
begin: reveal(crate::lexspec::idtok);
end: proof { if let TokenValue::Keyword(k) = &value { crate::lexspec::lemma_word(crate::tables::Table::text(k), *k); } }
ens: final(self).read_v(*old(self), r, crate::lexspec::idtok(old(self).s(), old(self).k()))
== fn lexer::Lexer::read_identifier_or_keyword_expand_unicode
inv: crate::lexspec::ident(self.s(), self.k(), word@) == crate::lexspec::ident(self.s(), old(self).k(), Seq::empty())
lens: crate::lexspec::ident(self.s(), self.k(), word@) == Some((self.k(), word@))
ens: r is Ok <==> crate::lexspec::ident(old(self).s(), old(self).k(), Seq::empty()) is Some
ens: r matches Ok(w) ==> crate::lexspec::ident(old(self).s(), old(self).k(), Seq::empty()) == Some((final(self).k(), w@))
== fn lexer::Lexer::read_and_expand_unicode_escape_sequence
req: crate::lexspec::ch(old(self).s(), old(self).k(), '\\')
ens: r is Ok <==> (crate::lexspec::uesc(old(self).s(), old(self).k()) matches Some(x) && if is_start { crate::lexspec::is_id_s(x.1) } else { crate::lexspec::is_id_p(x.1) })
ens: r matches Ok(c) ==> crate::lexspec::uesc(old(self).s(), old(self).k()) == Some((final(self).k(), c))
== fn lexer::Lexer::read_unicode_escape_sequence
req: crate::lexspec::ch(old(self).s(), old(self).k(), '\\')
ens: r is Ok <==> crate::lexspec::uesc(old(self).s(), old(self).k()) is Some
ens: r matches Ok(c) ==> crate::lexspec::uesc(old(self).s(), old(self).k()) == Some((final(self).k(), c))
== fn lexer::Lexer::read_code_point
req: crate::lexspec::ch(old(self).s(), old(self).k(), '{')
invx: old(self).k() + 1 <= self.k() <= self.s().len() && hex@ == self.s().subrange(old(self).k() + 1, self.k()) && crate::vx::all_hex(hex@)
lbegin *: reveal_with_fuel(crate::lexspec::hexrun, 3);
invx: old(self).k() + 1 == self.k() || !crate::lexspec::ch(self.s(), self.k(), '}')
invx: crate::lexspec::hexrun(self.s(), self.k()) == crate::lexspec::hexrun(self.s(), old(self).k() + 1)
lens: self.k() == crate::lexspec::hexrun(self.s(), old(self).k() + 1) + 1 && crate::lexspec::ch(self.s(), self.k() - 1, '}') && old(self).k() + 2 < self.k() && hex@ == self.s().subrange(old(self).k() + 1, self.k() - 1) && crate::vx::all_hex(hex@)
ens: r is Ok <==> crate::lexspec::cp_end(old(self).s(), old(self).k()) is Some
ens: r matches Ok(c) ==> crate::lexspec::cp_end(old(self).s(), old(self).k()) == Some((final(self).k(), c as int))
== fn lexer::Lexer::read_4digit_hex
ens: r is Ok <==> crate::lexspec::hex4(old(self).s(), old(self).k()) is Some
ens: r matches Ok(c) ==> crate::lexspec::hex4(old(self).s(), old(self).k()) == Some((final(self).k(), c as int))
end: proof { assert(hex@ =~= self.s().subrange(old(self).k(), old(self).k() + 4)); assert(crate::vx::all_hex(hex@)); crate::lexspec::lemma_hex4(hex@); }
== fn lexer::Lexer::read_hex_char
ens: r is Ok <==> old(self).k() < old(self).s().len() && crate::vx::hex_digit(old(self).s()[old(self).k()]) >= 0
ens: r matches Ok(c) ==> c == old(self).s()[old(self).k()] && final(self).k() == old(self).k() + 1

== fn lexer::Lexer::read_template_literal_head
begin: reveal(crate::lexspec::tpltok);
req: crate::lexspec::ch(old(self).s(), old(self).k(), '`')
ens: final(self).read_v(*old(self), r, crate::lexspec::tpltok(old(self).s(), old(self).k()))
== fn lexer::Lexer::read_template_literal_middle_or_tail
ens: r is Ok ==> !final(self).first_on_line
begin: reveal(crate::lexspec::tplx);
begin: broadcast use crate::lexspec::group_lex;
notemplate
req: old(self).wf()
ens: final(self).same(*old(self)) && old(self).k() <= final(self).k()
ens: final(self).read_t(*old(self), r, crate::lexspec::lexs(old(self).s(), old(self).k(), true, crate::rd::St { template: true, ..old(self).st() }))
== fn lexer::Lexer::read_until_end_of_template_literal_part
begin: proof { reveal_strlit("${"); reveal_strlit("`"); assert("`"@.len() != "${"@.len()); }
lbegin *: proof { reveal_strlit("${"); reveal_strlit("`"); assert("`"@.len() != "${"@.len()); }
inv: crate::lexspec::tpl(self.s(), self.k(), result@, escape) == crate::lexspec::tpl(self.s(), old(self).k(), Seq::empty(), false)
ens: r is Ok <==> crate::lexspec::tpl(old(self).s(), old(self).k(), Seq::empty(), false) is Some
ens: r matches Ok(x) ==> crate::lexspec::tpl(old(self).s(), old(self).k(), Seq::empty(), false) == Some((final(self).k(), x.0@, x.1@ == "${"@))

== fn lexer::Lexer::read_string_literal
begin: reveal(crate::lexspec::strtok);
req: crate::lexspec::ch(old(self).s(), old(self).k(), '"') || crate::lexspec::ch(old(self).s(), old(self).k(), '\'')
ens: final(self).read_v(*old(self), r, crate::lexspec::strtok(old(self).s(), old(self).k()))
== fn lexer::Lexer::read_until_unescaped_delimiter
req: delimiter == '"' || delimiter == '\''
invx: crate::lexspec::strlit(self.s(), self.k(), delimiter, result@) == crate::lexspec::strlit(self.s(), old(self).k(), delimiter, old(result)@)
invx: delimiter == '"' || delimiter == '\''
lens: crate::lexspec::strlit(self.s(), old(self).k(), delimiter, old(result)@) == Some((self.k(), result@))
ens: (r is Ok <==> crate::lexspec::strlit(old(self).s(), old(self).k(), delimiter, old(result)@) is Some)
ens: (r is Ok ==> crate::lexspec::strlit(old(self).s(), old(self).k(), delimiter, old(result)@) == Some((final(self).k(), final(result)@)))
== fn lexer::Lexer::read_escape_sequence
ens: r is Ok <==> old(self).k() < old(self).s().len()
ens: r is Ok ==> if crate::lexspec::ch(old(self).s(), old(self).k(), '\r') && crate::lexspec::ch(old(self).s(), old(self).k() + 1, '\n') { final(self).k() == old(self).k() + 2 && final(result)@ == old(result)@.push('\r').push('\n') } else { final(self).k() == old(self).k() + 1 && final(result)@ == old(result)@.push(old(self).s()[old(self).k()]) }
== fn lexer::Lexer::validate_character
req: self.k() >= 1
begin: proof { crate::lexspec::lemma_mpos(self.s(), 0, self.k()); }
ens: r is Err <==> char == '\r' || char == '\n'

== fn lexer::Lexer::read_regexp_literal
begin: reveal(crate::lexspec::retok);
lbegin *: reveal(crate::lexspec::retok); proof { if self.k() < self.s().len() { crate::lexspec::lemma_mpos(self.s(), self.k(), self.k() + 1); } }
req: crate::lexspec::ch(old(self).s(), old(self).k(), '/')
inv: old(self).k() + 1 <= self.k() <= self.s().len() && result@ == self.s().subrange(old(self).k(), self.k())
invx: crate::lexspec::rebody(self.s(), self.k()) == crate::lexspec::rebody(self.s(), old(self).k() + 1)
lens: crate::lexspec::rebody(self.s(), old(self).k() + 1) == Some(self.k())
ens: final(self).read_v(*old(self), r, crate::lexspec::retok(old(self).s(), old(self).k()))
== fn lexer::Lexer::read_regexp_group_body
lbegin *: proof { if self.k() < self.s().len() { crate::lexspec::lemma_mpos(self.s(), self.k(), self.k() + 1); } }
inv: old(self).k() <= self.k() <= self.s().len() && result@ == self.s().subrange(old(self).k(), self.k())
invx: crate::lexspec::reclass(self.s(), self.k()) == crate::lexspec::reclass(self.s(), old(self).k())
lens: crate::lexspec::reclass(self.s(), old(self).k()) == Some(self.k())
ens: r is Ok <==> crate::lexspec::reclass(old(self).s(), old(self).k()) is Some
ens: r matches Ok(w) ==> crate::lexspec::reclass(old(self).s(), old(self).k()) == Some(final(self).k()) && w@ == old(self).s().subrange(old(self).k(), final(self).k())

== fn lexer::Lexer::read_number_literal
begin: reveal(crate::lexspec::numtok);
req: old(self).k() < old(self).s().len() && (crate::lexspec::is_dec(old(self).s()[old(self).k()]) || crate::lexspec::ch(old(self).s(), old(self).k(), '.') && old(self).k() + 1 < old(self).s().len() && crate::lexspec::is_dec(old(self).s()[old(self).k() + 1]))
ens: final(self).read_v(*old(self), r, crate::lexspec::numtok(old(self).s(), old(self).k()))
== fn lexer::Lexer::read_hex_string
ens: old(self).k() + 1 < old(self).s().len() ==> final(self).read_n(*old(self), r, crate::lexspec::digits1(old(self).s(), old(self).k() + 2, crate::lexspec::Cls::Hex))
== fn lexer::Lexer::read_octal_string
ens: old(self).k() + 1 < old(self).s().len() ==> final(self).read_n(*old(self), r, crate::lexspec::digits1(old(self).s(), old(self).k() + 2, crate::lexspec::Cls::Oct))
== fn lexer::Lexer::read_binary_string
ens: old(self).k() + 1 < old(self).s().len() ==> final(self).read_n(*old(self), r, crate::lexspec::digits1(old(self).s(), old(self).k() + 2, crate::lexspec::Cls::Bin))
== fn lexer::Lexer::read_decimal_string
ens: final(self).read_n(*old(self), r, crate::lexspec::decimal(old(self).s(), old(self).k()))
== fn lexer::Lexer::expect_read_number_string@read_hex_string
ens: final(self).read_n(*old(self), r, crate::lexspec::digits1(old(self).s(), old(self).k(), crate::lexspec::Cls::Hex))
== fn lexer::Lexer::expect_read_number_string@read_octal_string
ens: final(self).read_n(*old(self), r, crate::lexspec::digits1(old(self).s(), old(self).k(), crate::lexspec::Cls::Oct))
== fn lexer::Lexer::expect_read_number_string@read_binary_string
ens: final(self).read_n(*old(self), r, crate::lexspec::digits1(old(self).s(), old(self).k(), crate::lexspec::Cls::Bin))
== fn lexer::Lexer::expect_read_number_string@read_decimal_string
ens: final(self).read_n(*old(self), r, crate::lexspec::digits1(old(self).s(), old(self).k(), crate::lexspec::Cls::Dec))
== fn lexer::Lexer::read_number_string@expect_read_number_string@read_hex_string
ens: final(self).read_n(*old(self), r, crate::lexspec::digits(old(self).s(), old(self).k(), crate::lexspec::Cls::Hex))
== fn lexer::Lexer::read_number_string@expect_read_number_string@read_octal_string
ens: final(self).read_n(*old(self), r, crate::lexspec::digits(old(self).s(), old(self).k(), crate::lexspec::Cls::Oct))
== fn lexer::Lexer::read_number_string@expect_read_number_string@read_binary_string
ens: final(self).read_n(*old(self), r, crate::lexspec::digits(old(self).s(), old(self).k(), crate::lexspec::Cls::Bin))
== fn lexer::Lexer::read_number_string@expect_read_number_string@read_decimal_string
ens: final(self).read_n(*old(self), r, crate::lexspec::digits(old(self).s(), old(self).k(), crate::lexspec::Cls::Dec))
== fn lexer::Lexer::read_number_string@read_decimal_string
ens: final(self).read_n(*old(self), r, crate::lexspec::digits(old(self).s(), old(self).k(), crate::lexspec::Cls::Dec))
== fn lexer::Lexer::read_number_string@read_decimal_string#2
ens: final(self).read_n(*old(self), r, crate::lexspec::digits(old(self).s(), old(self).k(), crate::lexspec::Cls::Dec))

== fn lexer::Lexer::read
notemplate
attr: spinoff_prover
attr: rlimit(60)
cases 0 `let start = self.reader.position()`: *current == '/' ;; *current == '*' ;; *current == '%' ;; *current == '+' ;; *current == '-' ;; *current == '|' ;; *current == '^' ;; *current == '&' ;; *current == '<' ;; *current == '>' ;; *current == '=' ;; *current == '!' ;; *current == '.' ;; *current == '?' ;; *current == '(' || *current == ')' || *current == '[' || *current == ']' || *current == '{' ;; *current == '}' || *current == ';' || *current == ',' || *current == '~' || *current == ':' ;; crate::lexspec::is_dec(*current) ;; *current == '"' || *current == '\'' ;; *current == '`'
before 1 `let end = self.reader.position()`: assert(crate::lexspec::tokv(self.s(), crate::lexspec::skx(old(self).s(), old(self).k(), old(self).first_on_line, old(self).state.html_comment_allowed)->Some_0.0, self.state.regex_allowed) == Some((value, self.k())));
req: old(self).wf()
ens: final(self).same(*old(self)) && old(self).k() <= final(self).k()
ens: final(self).read_t(*old(self), r, crate::lexspec::lexs(old(self).s(), old(self).k(), old(self).first_on_line, old(self).st()))
ens: r is Ok ==> !final(self).first_on_line
== fn lexer::PeekRead<Token>@Lexer::next
end: proof { let x = crate::lexspec::lexs(old(self).s(), old(self).k(), old(self).first_on_line, old(self).st())->Some_0; crate::lexspec::lemma_mpos(self.s(), x.1, x.2); crate::lexspec::lemma_mpos(self.s(), old(self).k(), x.1); }
begin: proof { crate::lexspec::lemma_bpos_ulen(self.s()); assert forall|a: int, b: int| 0 <= a <= b <= self.s().len() implies #[trigger] crate::lexspec::mpos(self.s(), a) <= #[trigger] crate::lexspec::mpos(self.s(), b) by { crate::lexspec::lemma_mpos(self.s(), a, b); }; crate::lexspec::lemma_room(self.s(), self.k(), 0); crate::lexspec::lemma_room(self.s(), self.s().len() as int, 0); crate::lexspec::lemma_lexs(self.s(), self.k(), self.first_on_line, self.st()); }
== fn lexer::Lexer::read_all
notemplate
req: old(self).wf()
inv: self.same(*old(self))
ens: final(self).same(*old(self))
== fn lexer::Lexer::new
begin: proof { lemma_ulen_nonneg(data@); crate::lexspec::lemma_bpos_ulen(data@); }
ens: r matches Ok(l) ==> l.wf() && l.s() == data@ && l.k() == 0 && l.first_on_line && l.st() == crate::lexspec::st_default()
ens: r is Ok
== fn lexer::Lexer::set_state
notemplate
req: old(self).wf()
ens: final(self).wf() && final(self).s() == old(self).s() && final(self).k() == old(self).k() && final(self).first_on_line == old(self).first_on_line && final(self).state == state
== fn lexer::LexerState::with_html_comments_allowed
ens: crate::lexspec::st_of(r) == (crate::rd::St { html: allowed, ..crate::lexspec::st_of(*self) })
== fn lexer::LexerState::regex_allowed
ens: crate::lexspec::st_of(r) == (crate::rd::St { html: true, regex: true, template: false })
== fn lexer::LexerState::inside_template
ens: crate::lexspec::st_of(r) == (crate::rd::St { html: true, regex: false, template: true })
== fn lexer::Default@LexerState::default
ens: crate::lexspec::st_of(r) == crate::lexspec::st_default()
== fn ast::Span::new
ens: r.start == start && r.end == end
== fn lexer::Token::new
ens: r.value == value && r.first_on_line == first_on_line && call_ensures(S::into, (span,), r.span)
== fn lexer::Seek@Lexer::seek
begin: reveal(crate::fajt_common::io::PeekReader::wf); let ghost vx_to = crate::lexspec::seek_to(*self, pos); proof { crate::lexspec::lemma_ascii_pos(self.s(), self.k()); crate::lexspec::lemma_ascii_pos(self.s(), vx_to); crate::lexspec::lemma_ascii_boundary(self.s(), vx_to); crate::lexspec::lemma_ascii_boundary(self.s().skip(vx_to), 0); }
end: proof { crate::rd::lemma_rebase::<CharIndices<'static>>(self.reader, self.s(), vx_to); self.reader.vx_g@.chars = self.s(); self.reader.vx_g@.k = vx_to; self.reader.vx_g@.base = 0; }
== fn lexer::ReReadWithState<Token>@Lexer::rewind_before
end: proof { crate::lexspec::lemma_ascii_pos(self.s(), self.k()); assert forall|i: int| 0 <= i < self.s().len() implies #[trigger] crate::lexspec::mpos(self.s(), i) == i by { crate::lexspec::lemma_ascii_pos(self.s(), i); } }
== fn lexer::ReReadWithState<Token>@Lexer::read_with_state
begin: broadcast use crate::rd::axiom_st;
end: proof { crate::lexspec::lemma_mpos(self.s(), old(self).k(), self.s().len() as int); }
