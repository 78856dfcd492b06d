#![allow(async_fn_in_trait)]
use vhcore::mpc::stamp_prelude::*;
use vhcore::*;

spdz_like!(PI8, i8, u64);
spdz_like!(PI16, i16, u64);
spdz_like!(PI32, i32, u64);
spdz_like!(PI64, i64, u128);
spdz_like!(PI128, i128, u128);

pub fn run(sc: &Scenario) -> Option<serde_json::Value> {
    match sc.ring.as_str() {
        "i8" => Some(exec::<PI8>(sc)),
        "i16" => Some(exec::<PI16>(sc)),
        "i32" => Some(exec::<PI32>(sc)),
        "i64" => Some(exec::<PI64>(sc)),
        "i128" => Some(exec::<PI128>(sc)),
        _ => None,
    }
}
