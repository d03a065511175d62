#[allow(dead_code)]
mod cli;
mod engine;
#[allow(dead_code)]
mod inst;
#[allow(dead_code)]
mod oracle;
#[cfg(feature = "models")]
mod p_models;
#[cfg(feature = "eval")]
mod p_eval;
#[cfg(feature = "ls")]
mod p_ls;
#[cfg(feature = "rr")]
mod p_rr;
#[cfg(feature = "ga")]
mod p_ga;
#[cfg(feature = "pop")]
mod p_pop;
#[cfg(feature = "dec")]
mod p_dec;
#[cfg(feature = "det")]
mod p_det;
#[cfg(feature = "meta")]
mod p_meta;
#[cfg(feature = "edu")]
mod p_edu;
#[cfg(feature = "dimacs")]
mod p_dimacs;
#[cfg(feature = "sisr")]
mod p_sisr;
#[cfg(feature = "rnd")]
mod p_rnd;
#[cfg(feature = "cross")]
mod p_cross;
#[cfg(feature = "broken")]
mod p_broken;
#[cfg(feature = "prog")]
mod p_prog;
#[cfg(feature = "cli")]
mod p_cli;
#[cfg(feature = "safe")]
mod p_safe;

fn main() {
    let mut props: Vec<engine::Prop> = Vec::new();
    #[cfg(feature = "models")]
    props.extend(p_models::props());
    #[cfg(feature = "eval")]
    props.extend(p_eval::props());
    #[cfg(feature = "ls")]
    props.extend(p_ls::props());
    #[cfg(feature = "rr")]
    props.extend(p_rr::props());
    #[cfg(feature = "ga")]
    props.extend(p_ga::props());
    #[cfg(feature = "pop")]
    props.extend(p_pop::props());
    #[cfg(feature = "dec")]
    props.extend(p_dec::props());
    #[cfg(feature = "det")]
    props.extend(p_det::props());
    #[cfg(feature = "edu")]
    props.extend(p_edu::props());
    #[cfg(feature = "meta")]
    props.extend(p_meta::props());
    #[cfg(feature = "dimacs")]
    props.extend(p_dimacs::props());
    #[cfg(feature = "sisr")]
    props.extend(p_sisr::props());
    #[cfg(feature = "cross")]
    props.extend(p_cross::props());
    #[cfg(feature = "broken")]
    props.extend(p_broken::props());
    #[cfg(feature = "prog")]
    props.extend(p_prog::props());
    #[cfg(feature = "rnd")]
    props.extend(p_rnd::props());
    #[cfg(feature = "cli")]
    props.extend(p_cli::props());
    #[cfg(feature = "safe")]
    props.extend(p_safe::props());
    std::process::exit(engine::main(props));
}
