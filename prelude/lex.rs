verus! {
#only A B
//@spec pos
#only C
//@spec nopos
#only *
//@spec lex
//@spec value
//@spec show
} // verus!
