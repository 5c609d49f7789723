exec(open(HERE+'/seeds/a.py').read().split('S=[')[0])
_N=70
_variants=', '.join('T%d'%i for i in range(_N))
_tokens=' '.join('"t%d" => Token::T%d,'%(i,i) for i in range(_N))
_chain=' '.join('N%d: u32 = { <n:N%d> => n, };'%(i,i+1) for i in range(300))+' N300: u32 = { "a" => 5, };'
S=[
dict(id='c22-mask',prop='C22',edits=[('lr1.rs','''            for (production_idx, _) in grammar.non_terminal_production_indices(next) {
                for t''','''            // Whether there is a lookahead at all
            let mask = first
                .terminals()
                .iter()
                .fold(0u64, |mask, t| mask | (1 << t.as_usize()));
            if mask == 0 && !first.has_empty() {
                continue;
            }
            for (production_idx, _) in grammar.non_terminal_production_indices(next) {
                for t''')],
 needs='a non-terminal followed by the 65th token of the enum or a later one',
 breaks='the macro panics on such a grammar',
 main='''
use parsegen::parser;
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Token { %s }
parser! {
    enum Token { %s }
    pub S: u32 = { <p:P> "t69" => p, };
    P: u32 = { "t1" => 3, };
}
fn main() {
    let ts: Vec<Result<Token, ()>> = vec![Ok(Token::T1), Ok(Token::T69)];
    assert_eq!(S::parse(ts.into_iter()), Ok(3));
}
'''%(_variants,_tokens)),
dict(id='c22-rounds',prop='C22',edits=[('first.rs','''    while updated {
        updated = false;''','''    // Rounds, for debugging
    let mut rounds = 0u8;
    while updated {
        rounds += 1;
        debug_assert_ne!(rounds, 0);
        updated = false;''')],
 needs='a chain of more than 255 non-terminals, each declared before the one it begins with',
 breaks='the counter overflows and the macro panics',
 main=P('pub S: u32 = { <n:N0> => n, };\n    '+_chain,'    assert_eq!(S::parse(lex("a").into_iter()), Ok(5));')),
dict(id='c22-slice',prop='C22',edits=[('lower.rs','''            let nt1_name = nt.name.to_string() + "1";''','''            let name = nt.name.to_string();
            let nt1_name = name[..1].to_uppercase() + &name[1..] + "1";''')],
 needs='a public non-terminal whose name begins with a letter outside ASCII',
 breaks='the name is cut inside the letter and the macro panics',
 main=P('pub Ärger: u32 = { "a" => 4, };','    assert_eq!(Ärger::parse(lex("a").into_iter()), Ok(4));')),
]
