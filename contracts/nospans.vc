#only C
#mod fallback
#raw fallback nospans
pub open spec fn call_site_span(s: Span) -> bool { true }
#fn fallback::get_cursor lt=Cursor
#ret r
#spec
    ensures r.rest@ == $0@,
#fn fallback::Span::join
#ret r
#spec
    ensures r.is_some(),
#fn fallback::Span::source_text
#ret r
#spec
    ensures r.is_none(),
#fn fallback::Span::first_byte
#ret r
#spec
    ensures r == self,
#fn fallback::Span::last_byte
#ret r
#spec
    ensures r == self,
#fn fallback::Group::span_open
#ret r
#spec
    ensures r == self.span,
#fn fallback::Group::span_close
#ret r
#spec
    ensures r == self.span,
#fn fallback::TokenStream::from_str_checked
#ret r
#spec
    ensures match r {
            Ok(s) => lex_source($0@, 0) == LexR::Ok(toks(s)),
            Err(e) => lex_source($0@, 0) is Err,
        },
#fn fallback::Literal::from_str_checked
#ret r
#spec
    ensures match r {
            Ok(l) => literal_source($0@) && l.repr@ == $0@,
            Err(e) => !literal_source($0@),
        },
#closure 0 |ch: char| -> (b: bool)
    ensures b == is_dec($a$)
#fn fallback::Literal::subspan mono=R:VBounds
#ret r
#spec
    ensures r.is_none(),
#end
#mod -
#fn Span::join
#ret r
#spec
    ensures r.is_some(),
#fn Span::source_text
#ret r
#spec
    ensures r.is_none(),
#fn Group::span_open
#ret r
#spec
    ensures r.inner.fb() == self.inner.fb().span,
#fn Group::span_close
#ret r
#spec
    ensures r.inner.fb() == self.inner.fb().span,
#fn Literal::subspan mono=R:VBounds
#ret r
#spec
    ensures r.is_none(),
#fn <TokenStream as FromStr>::from_str
#ret r
#spec
    ensures match r {
            Ok(s) => lex_source($0@, 0) == LexR::Ok(toks(s.inner.fb())),
            Err(e) => lex_source($0@, 0) is Err,
        },
#fn <Literal as FromStr>::from_str
#ret r
#spec
    ensures match r {
            Ok(l) => literal_source($0@) && tok(TokenTree::Literal(l)) == Tok::Lit($0@, 0, 0),
            Err(e) => !literal_source($0@),
        },
#end
#mod extra
#fn extra::DelimSpan::open
#ret r
#spec
    ensures r.inner.fb() == dsp(*self),
#fn extra::DelimSpan::close
#ret r
#spec
    ensures r.inner.fb() == dsp(*self),
#end
#mod imp
#fn imp::TokenStream::from_str_checked question=LexError::v_from
#ret r
#spec
    ensures match r {
            Ok(s) => lex_source($0@, 0) == LexR::Ok(toks(s.fb())),
            Err(e) => lex_source($0@, 0) is Err,
        },
#fn imp::Literal::from_str_checked question=LexError::v_from
#ret r
#spec
    ensures match r {
            Ok(l) => literal_source($0@) && l.fb().repr@ == $0@,
            Err(e) => !literal_source($0@),
        },
#fn imp::Span::join
#ret r
#spec
    ensures r.is_some(),
#fn imp::Span::source_text
#ret r
#spec
    ensures r.is_none(),
#fn imp::Group::span_open
#ret r
#spec
    ensures r.fb() == self.fb().span,
#fn imp::Group::span_close
#ret r
#spec
    ensures r.fb() == self.fb().span,
#fn imp::Literal::subspan mono=R:VBounds
#ret r
#spec
    ensures r.is_none(),
#end
#only *
