use crate::evm::ChainName;
use crate::types::TMAddress;
use crate::url::Url;

#[derive(Debug, PartialEq)]
pub struct Chain {
    pub name: ChainName,
    pub rpc_url: Url,
}

#[derive(Debug, PartialEq)]
pub enum Config {
    EvmMsgVerifier { cosmwasm_contract: TMAddress, chain: Chain },
    EvmWorkerSetVerifier { cosmwasm_contract: TMAddress, chain: Chain },
    MultisigSigner { cosmwasm_contract: TMAddress },
    SuiMsgVerifier { cosmwasm_contract: TMAddress, rpc_url: Url },
    SuiWorkerSetVerifier { cosmwasm_contract: TMAddress, rpc_url: Url },
}
