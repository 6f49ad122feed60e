//! Monitors for the pica-record library.
mod conv;
mod matchers;
mod parsing;
mod patterns;
mod queries;
mod records;
mod streams;
mod values;

fn main() {
    model::mon::main(|ctx| {
    ctx.scale.store(10, std::sync::atomic::Ordering::Relaxed);
    match ctx.prop.clone().as_str() {
        "C01" => records::c01(ctx),
        "C02" => streams::c02(ctx),
        "C03" => streams::c03(ctx),
        "C04" => patterns::c04(ctx),
        "C05" => patterns::c05(ctx),
        "C06" => matchers::c06(ctx),
        "C07" => matchers::c07(ctx),
        "C08" => queries::c08(ctx),
        "C09" => queries::c09(ctx),
        "C10" => parsing::c10(ctx),
        "C11" => matchers::c11(ctx),
        "C12" => records::c12(ctx),
        "C34" => values::c34(ctx),
        p => {
            eprintln!("unknown property {p}");
            std::process::exit(3)
        }
    }})
}
