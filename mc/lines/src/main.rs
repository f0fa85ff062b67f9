#![allow(deprecated)]
mod lines;

fn main() {
    let ctx = mcx::Ctx::from_args();
    std::process::exit(ctx.decide(|| {
        match ctx.id.as_str() {
            "C15" => lines::c15(&ctx),
            x => panic!("unknown property {}", x),
        }
    }));
}
