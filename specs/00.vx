== drop ast::mod::traverse lexer::KeywordContext::all lexer::KeywordContext::from_bits lexer::KeywordContext::from_bits_truncate lexer::KeywordContext::from_bits_unchecked lexer::KeywordContext::is_all lexer::__BitFlags lexer::__BitFlags@KeywordContext
