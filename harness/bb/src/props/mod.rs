use crate::eng::*;

pub mod engine;
pub mod expr;
pub mod grammar;
pub mod lexical;
pub mod misc;
pub mod regen;
pub mod spell;
pub mod tree;

pub fn run(c: &Ctx, w: &World) -> ModelCounts {
    match c.id.as_str() {
        "C01" => tree::lossless_prop(c, w),
        "C05" => expr::precedence(c, w),
        "C07" => tree::trivia(c, w),
        "C08" => tree::invariance(c, w),
        "C17" => engine::engines(c, w),
        "C21" => regen::regeneration(c, w),
        // see check.sh
        "C19" | "C22" => regen::whole_grammar(c, w),
        "C18" => tree::history(c, w),
        "C23" => tree::scripts(c, w),
        "C02" => misc::totality(c, w),
        "C16" => misc::variant(c, w),
        "C24" => misc::front_ends(c, w),
        "C03" => grammar::acceptance(c, w),
        "C04" => grammar::structure(c, w),
        "C06" => grammar::error_location(c, w),
        "C09" => lexical::words(c, w),
        "C10" => lexical::numbers(c, w),
        "C11" => lexical::strings(c, w),
        "C12" => lexical::comments(c, w),
        "C13" => lexical::operators(c, w),
        "C14" => lexical::errors(c, w),
        "C15" => lexical::lookahead(c, w),
        x => panic!("no such check {x}"),
    }
}
