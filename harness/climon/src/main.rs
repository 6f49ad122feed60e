//! Monitors for the `pica` program.
mod checks;
mod cli;
mod cmds;
mod common;
mod crash;
mod delivery;
mod faults;
mod lists;
mod norm;
mod records;
mod scale;
mod tables;
mod usage;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() > 3 && args[1] == "--measure" {
        std::process::exit(scale::measure(&args[2..]));
    }
    model::mon::main(|ctx| {
        ctx.scale.store(4, std::sync::atomic::Ordering::Relaxed);
        run(ctx)
    })
}

fn run(ctx: &mut model::mon::Ctx) {
    match ctx.prop.clone().as_str() {
        "C13" => records::c13(ctx),
        "C14" => records::c14(ctx),
        "C15" => records::c15(ctx),
        "C16" => records::c16(ctx),
        "C17" => records::c17(ctx),
        "C18" => records::c18(ctx),
        "C19" => records::c19(ctx),
        "C20" => tables::c20(ctx),
        "C21" => tables::c21(ctx),
        "C22" => tables::c22(ctx),
        "C23" => tables::c23(ctx),
        "C24" => tables::c24(ctx),
        "C25" => checks::c25(ctx),
        "C26" => checks::c26(ctx),
        "C27" => common::c27(ctx),
        "C28" => tables::c28(ctx),
        "C29" => tables::c29(ctx),
        "C30" => norm::c30(ctx),
        "C31" => common::c31(ctx),
        "C32" => faults::c32(ctx),
        "C35" => delivery::c35(ctx),
        "C36" => delivery::c36(ctx),
        "C37" => scale::c37(ctx),
        "C38" => usage::c38(ctx),
        "C33" => crash::c33(ctx),
        p => {
            eprintln!("unknown property {p}");
            std::process::exit(3)
        }
    }
}
