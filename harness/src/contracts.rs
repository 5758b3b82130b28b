//! The real contracts, ready for the simulated chain.
use cosmwasm_std::{to_binary, CosmosMsg, Deps, DepsMut, Empty, Env, MessageInfo, Response, SubMsg};
use cw_multi_test::{Contract, ContractWrapper};

use crate::world::Custom;

pub type Boxed = Box<dyn Contract<Custom>>;

pub fn router() -> Boxed {
    use connection_router::contract::*;
    Box::new(ContractWrapper::<_, _, _, _, _, _, Custom>::new_with_empty(execute, instantiate, query))
}

pub fn gateway() -> Boxed {
    use gateway::contract::*;
    Box::new(ContractWrapper::<_, _, _, _, _, _, Custom>::new_with_empty(execute, instantiate, query))
}

pub fn aggregate_verifier() -> Boxed {
    use aggregate_verifier::contract::*;
    Box::new(ContractWrapper::<_, _, _, _, _, _, Custom>::new_with_empty(execute, instantiate, query).with_reply_empty(reply))
}

pub fn voting_verifier() -> Boxed {
    use voting_verifier::contract::*;
    Box::new(ContractWrapper::<_, _, _, _, _, _, Custom>::new_with_empty(execute, instantiate, query))
}

pub fn multisig() -> Boxed {
    use multisig::contract::*;
    Box::new(ContractWrapper::<_, _, _, _, _, _, Custom>::new_with_empty(execute, instantiate, query))
}

pub fn prover() -> Boxed {
    use multisig_prover::contract::*;
    Box::new(ContractWrapper::<_, _, _, _, _, _, Custom>::new_with_empty(execute, instantiate, query).with_reply_empty(reply))
}

pub fn rewards() -> Boxed {
    use rewards::contract::*;
    // the contract has no queries to speak of
    fn no_query(_: Deps, _: Env, _: Empty) -> cosmwasm_std::StdResult<cosmwasm_std::Binary> {
        to_binary(&())
    }
    Box::new(ContractWrapper::<_, _, _, _, _, _, Custom>::new_with_empty(execute, instantiate, no_query))
}

pub fn service_registry() -> Boxed {
    use service_registry::contract::*;
    Box::new(ContractWrapper::<_, _, _, _, _, _, Custom>::new_with_empty(execute, instantiate, query))
}

pub fn batching() -> Boxed {
    use batching::contract::*;
    fn no_query(_: Deps, _: Env, _: Empty) -> cosmwasm_std::StdResult<cosmwasm_std::Binary> {
        to_binary(&())
    }
    Box::new(ContractWrapper::<_, _, _, _, _, _, Custom>::new_with_empty(execute, instantiate, no_query).with_reply_empty(reply))
}

/// The nexus gateway speaks its own message type, which is not exported: it crosses over as JSON.
pub fn nexus_gateway() -> Boxed {
    use nexus_gateway::contract::{execute, instantiate};
    use nexus_gateway::msg::{ExecuteMsg, InstantiateMsg};
    fn ex(deps: DepsMut, env: Env, info: MessageInfo, msg: ExecuteMsg) -> Result<Response<Custom>, axelar_wasm_std::ContractError> {
        execute(deps, env, info, msg).map(cross)
    }
    fn init(deps: DepsMut, env: Env, info: MessageInfo, msg: InstantiateMsg) -> Result<Response<Custom>, axelar_wasm_std::ContractError> {
        instantiate(deps, env, info, msg).map(cross)
    }
    fn no_query(_: Deps, _: Env, _: Empty) -> cosmwasm_std::StdResult<cosmwasm_std::Binary> {
        to_binary(&())
    }
    Box::new(ContractWrapper::<_, _, _, _, _, _, Custom>::new(ex, init, no_query))
}

fn cross<T: serde::Serialize + cosmwasm_std::CustomMsg>(r: Response<T>) -> Response<Custom> {
    let mut out = Response::<Custom>::new().add_attributes(r.attributes).add_events(r.events);
    out.data = r.data;
    for m in r.messages {
        let msg: CosmosMsg<Custom> = match m.msg {
            CosmosMsg::Custom(c) => CosmosMsg::Custom(Custom(serde_json::to_value(&c).expect("json"))),
            CosmosMsg::Bank(b) => CosmosMsg::Bank(b),
            CosmosMsg::Wasm(w) => CosmosMsg::Wasm(w),
            _ => panic!("unexpected message kind"),
        };
        out.messages.push(SubMsg { id: m.id, msg, gas_limit: m.gas_limit, reply_on: m.reply_on });
    }
    out
}
