mod client;
mod fresh;
mod prog;
mod reads;
mod sys;
mod tcp;
mod udp;
mod volume;

fn main() {
    if let Ok(w) = std::env::var("MC_STORE") {
        prog::store_child(&w);
    }
    // the program under test reads the command line itself: this process runs with the arguments it expects
    let args = match std::env::var("MC_ARGS") {
        Ok(a) => a.split('\n').map(|s| s.to_string()).collect::<Vec<_>>(),
        Err(_) => {
            use std::os::unix::process::CommandExt;
            let list: Vec<String> = std::env::args().skip(1).collect();
            let e = std::process::Command::new("/proc/self/exe").args(["--path", "/data", "--port", "2468"]).env("MC_ARGS", list.join("\n")).exec();
            panic!("cannot restart: {}", e);
        }
    };
    let ctx = mcx::Ctx::from_list(args);
    sys::install();
    sys::litmus(&ctx);
    match ctx.id.as_str() {
        "C18" | "C19" | "C20" => udp::check(&ctx),
        "C21" => reads::check(&ctx),
        "C22" => tcp::check(&ctx),
        "C23" => prog::c23(&ctx),
        "C24" => prog::c24(&ctx, &client::wire()),
        "C25" => prog::c25(&ctx, &client::wire()),
        "C31" => prog::c31(&ctx, &client::wire()),
        "C33" => fresh::check(&ctx),
        "C26" => client::check(&ctx),
        i => panic!("no check for {}", i),
    }
    std::process::exit(ctx.finish());
}
