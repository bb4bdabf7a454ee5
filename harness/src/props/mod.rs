//! Workloads by property.
use crate::ctx::Ctx;
use crate::rng::Rng;
use crate::Workload;

pub mod chain;
pub mod codec;
pub mod config;
#[cfg(feature = "crypto")]
pub mod crypto;
pub mod cursor;
#[cfg(all(feature = "crypto", feature = "peek"))]
pub mod direct;
pub mod iso;
pub mod pair;
pub mod req;
pub mod rsp;

type F = fn(&mut Ctx, &mut Rng);

pub fn workloads(prop: &str) -> Vec<Workload> {
    #[allow(unused_mut)]
    let mut all: Vec<(&'static str, F, u64, &'static [&'static str])> = vec![
        ("rsp.any", rsp::any, 6000, &["C05","C07","C20","C25","C31","C04","C10","C12","C13","C17","C18","C16"]),
        ("rsp.order", rsp::order, 4000, &["C05","C07","C25","C31","C13","C20"]),
        ("rsp.sweep", rsp::sweep, 200, &["C07"]),
        ("rsp.algs", rsp::algs, 2000, &["C10","C31","C05","C07","C20","C25"]),
        ("rsp.algs_all", rsp::algs_all, 32768, &["C10"]),
        ("rsp.caps", rsp::caps_wl, 2000, &["C13","C05","C07","C20","C25"]),
        ("rsp.ident", rsp::ident, 1500, &["C17","C04","C05","C07","C20","C25"]),
        ("rsp.challenges", rsp::challenges, 2000, &["C18","C31","C04","C05","C07","C10","C17","C25"]),
        ("rsp.faults", rsp::faults, 1500, &["C19","C31","C05","C07","C18","C20","C25"]),
        ("rsp.buffers", rsp::buffers, 1500, &["C04","C16","C31","C05","C07","C20","C25"]),
        ("rsp.long", rsp::long, 300, &["C05","C27","C04","C31","C07","C25"]),
        ("rsp.exact_fill", rsp::exact_fill, 3000, &["C27","C04","C06","C07","C25"]),
        ("rsp.restart_diff", rsp::restart_diff, 3000, &["C06","C31","C04","C07","C25"]),
        ("req.any", req::any, 4000, &["C08","C09","C15","C20","C25","C31","C04","C11","C12","C13"]),
        ("req.order", req::order, 4000, &["C08","C09","C20","C31","C25"]),
        ("req.algs", req::algs, 8000, &["C11","C31","C08","C09","C20","C25"]),
        ("req.versions", req::versions, 5000, &["C12","C31","C08","C09","C20","C25"]),
        ("req.caps", req::caps_wl, 2000, &["C13","C31","C08","C09","C25"]),
        ("req.buffers", req::buffers, 1500, &["C04","C16","C31","C08","C09","C25"]),
        ("req.chains", req::chains, 4000, &["C08","C21","C22","C01","C09","C25"]),
        ("req.sweep", req::sweep, 4000, &["C08","C09","C01","C20"]),
        ("req.long", req::long, 200, &["C27","C08","C04","C31","C25"]),
        ("req.attacks", req::attacks, 4000, &["C01","C08","C09","C25"]),
        ("pair.honest", pair::honest, 1500, &["C02","C04","C06","C13","C31","C17","C18","C25"]),
        ("pair.peer", pair::peer, 4000, &["C02","C04","C31","C11","C12","C25"]),
        ("pair.mitm", pair::mitm, 3000, &["C01","C04","C03","C09","C25"]),
        ("pair.nonces", pair::nonces, 120, &["C03"]),
        ("pair.starts", pair::starts, 12, &["C03"]),
        ("pair.compare", pair::compare, 2000, &["C04","C25"]),
        ("rsp.restarts", rsp::restarts, 2000, &["C06"]),
        ("codec.all", codec::all, 1500, &["C14","C15","C25","C31"]),
        ("codec.built", codec::built, 1500, &["C14","C15","C25","C31"]),
        ("codec.meas", codec::meas, 600, &["C28","C14","C15","C25","C31"]),
        ("codec.opaque", codec::opaque_and_errors, 1200, &["C29","C14","C15","C25","C31"]),
        ("cursor.reader", cursor::reader, 40000, &["C26","C31","C25"]),
        ("cursor.writer", cursor::writer, 20000, &["C26","C31","C25"]),
        ("cursor.bits_all", cursor::bits_all, 65536, &["C26"]),
        ("cursor.store", cursor::store, 3000, &["C27","C31","C25"]),
        ("iso.types", iso::types, 1, &["C24"]),
        ("iso.interleaved", iso::interleaved, 1500, &["C24"]),
        ("iso.threads", iso::threads, 400, &["C24"]),
        ("iso.signers", iso::signers, 300, &["C24"]),
        ("iso.many", iso::many, 16, &["C24"]),
        ("iso.process", iso::process, 60, &["C24"]),
        ("chain.any", chain::any, 30000, &["C21","C15","C31","C25"]),
        ("config.limits", config::limits, 6000, &["C30"]),
        ("chain.built", chain::built, 15000, &["C21","C14","C15","C31","C25"]),
    ];
    #[cfg(feature = "crypto")]
    {
        let more: [(&'static str, F, u64, &'static [&'static str]); 5] = [
            ("crypto.digests", crypto::digests, 12000, &["C23","C31","C25"]),
            ("crypto.encode", crypto::encode, 60000, &["C22","C31","C25"]),
            ("crypto.verify", crypto::verify, 6000, &["C22","C31","C25"]),
            ("crypto.trust", crypto::trust, 4000, &["C22","C25"]),
            ("crypto.signer", crypto::signer, 1500, &["C22"]),
        ];
        all.extend(more);
    }
    #[cfg(feature = "peek")]
    all.push(("nonces.many", pair::many_nonces, 4, &["C03"]));
    #[cfg(all(feature = "crypto", feature = "peek"))]
    all.push(("direct.slots", direct::slots, 1500, &["C01","C02","C04","C08","C09","C25"]));
    all.into_iter().filter(|w| prop == "ALL" || w.3.contains(&prop)).map(|(name, f, q, _)| Workload { name, quick: q, thorough: q * 50, f }).collect()
}
