#![allow(async_fn_in_trait)]
use vhcore::mpc::stamp_prelude::*;
use vhcore::*;

spdz_like!(PU8, u8, u64);
spdz_like!(PU16, u16, u64);
spdz_like!(PU32, u32, u64);
spdz_like!(PU64, u64, u128);
spdz_like!(PU128, u128, u128);

pub fn run(sc: &Scenario) -> Option<serde_json::Value> {
    match sc.ring.as_str() {
        "u8" => Some(exec::<PU8>(sc)),
        "u16" => Some(exec::<PU16>(sc)),
        "u32" => Some(exec::<PU32>(sc)),
        "u64" => Some(exec::<PU64>(sc)),
        "u128" => Some(exec::<PU128>(sc)),
        _ => None,
    }
}
