From e0f8037dd911ccdbb58aea74110b05dc2e00ffd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:57 +0000
Subject: [PATCH 01/29] fix: sale tax pair enforces min_lp_to_receive and
 min_assets_to_receive

---
 contracts/pair_xyk_sale_tax/src/contract.rs | 68 ++++++++++++++++++++-
 contracts/pair_xyk_sale_tax/src/error.rs    | 15 ++++-
 2 files changed, 80 insertions(+), 3 deletions(-)

diff --git a/contracts/pair_xyk_sale_tax/src/contract.rs b/contracts/pair_xyk_sale_tax/src/contract.rs
index 2e889d8..c68cdac 100644
--- a/contracts/pair_xyk_sale_tax/src/contract.rs
+++ b/contracts/pair_xyk_sale_tax/src/contract.rs
@@ -229,7 +229,7 @@ pub fn execute(
             slippage_tolerance,
             auto_stake,
             receiver,
-            ..
+            min_lp_to_receive,
         } => provide_liquidity(
             deps,
             env,
@@ -238,6 +238,7 @@ pub fn execute(
             slippage_tolerance,
             auto_stake,
             receiver,
+            min_lp_to_receive,
         ),
         ExecuteMsg::Swap {
             offer_asset,
@@ -265,7 +266,10 @@ pub fn execute(
             )
         }
         ExecuteMsg::UpdateConfig { params } => update_config(deps, info, params),
-        ExecuteMsg::WithdrawLiquidity { assets, .. } => withdraw_liquidity(deps, env, info, assets),
+        ExecuteMsg::WithdrawLiquidity {
+            assets,
+            min_assets_to_receive,
+        } => withdraw_liquidity(deps, env, info, assets, min_assets_to_receive),
         _ => Err(ContractError::NonSupported {}),
     }
 }
@@ -335,7 +339,9 @@ pub fn receive_cw20(
 /// * **receiver** is an optional parameter which defines the receiver of the LP tokens.
 /// If no custom receiver is specified, the pair will mint LP tokens for the function caller.
 ///
+/// * **min_lp_to_receive** is an optional parameter which specifies the minimum amount of LP tokens to receive.
 /// NOTE - the address that wants to provide liquidity should approve the pair contract to pull its relevant tokens.
+#[allow(clippy::too_many_arguments)]
 pub fn provide_liquidity(
     deps: DepsMut,
     env: Env,
@@ -344,6 +350,7 @@ pub fn provide_liquidity(
     slippage_tolerance: Option<Decimal>,
     auto_stake: Option<bool>,
     receiver: Option<String>,
+    min_lp_to_receive: Option<Uint128>,
 ) -> Result<Response, ContractError> {
     let mut config = CONFIG.load(deps.storage)?;
 
@@ -394,6 +401,15 @@ pub fn provide_liquidity(
         )?);
     }
 
+    let min_amount_lp = min_lp_to_receive.unwrap_or(Uint128::zero());
+
+    if share < min_amount_lp {
+        return Err(ContractError::ProvideSlippageViolation(
+            share,
+            min_amount_lp,
+        ));
+    }
+
     // Mint LP tokens for the sender or for the receiver (if set)
     let receiver = addr_opt_validate(deps.api, &receiver)?.unwrap_or_else(|| info.sender.clone());
     messages.extend(mint_liquidity_token_message(
@@ -487,11 +503,14 @@ where
 /// * **sender** is the address that will receive assets back from the pair contract.
 ///
 /// * **amount** is the amount of LP tokens to burn.
+///
+/// * **min_assets_to_receive** is an optional parameter which specifies the minimum amounts of assets to receive.
 pub fn withdraw_liquidity(
     deps: DepsMut,
     env: Env,
     info: MessageInfo,
     assets: Vec<Asset>,
+    min_assets_to_receive: Option<Vec<Asset>>,
 ) -> Result<Response, ContractError> {
     let mut config = CONFIG.load(deps.storage).unwrap();
 
@@ -512,6 +531,8 @@ pub fn withdraw_liquidity(
         return Err(StdError::generic_err("Imbalanced withdraw is currently disabled").into());
     };
 
+    ensure_min_assets_to_receive(&config, refund_assets.clone(), min_assets_to_receive)?;
+
     if config.track_asset_balances {
         for (i, pool) in pools.iter().enumerate() {
             BALANCES.save(
@@ -1477,6 +1498,49 @@ pub fn pool_info(querier: QuerierWrapper, config: &Config) -> StdResult<(Vec<Ass
     Ok((pools, total_share))
 }
 
+fn ensure_min_assets_to_receive(
+    config: &Config,
+    mut refund_assets: Vec<Asset>,
+    min_assets_to_receive: Option<Vec<Asset>>,
+) -> Result<(), ContractError> {
+    if let Some(min_assets_to_receive) = min_assets_to_receive {
+        if refund_assets.len() != min_assets_to_receive.len() {
+            return Err(ContractError::WrongAssetLength {
+                expected: refund_assets.len(),
+                actual: min_assets_to_receive.len(),
+            });
+        }
+
+        for asset in &min_assets_to_receive {
+            if !config.pair_info.asset_infos.contains(&asset.info) {
+                return Err(ContractError::AssetMismatch {});
+            }
+        }
+
+        if refund_assets[0].info.ne(&min_assets_to_receive[0].info) {
+            refund_assets.swap(0, 1)
+        }
+
+        if refund_assets[0].amount < min_assets_to_receive[0].amount {
+            return Err(ContractError::WithdrawSlippageViolation {
+                asset_name: refund_assets[0].info.to_string(),
+                received: refund_assets[0].amount,
+                expected: min_assets_to_receive[0].amount,
+            });
+        }
+
+        if refund_assets[1].amount < min_assets_to_receive[1].amount {
+            return Err(ContractError::WithdrawSlippageViolation {
+                asset_name: refund_assets[1].info.to_string(),
+                received: refund_assets[1].amount,
+                expected: min_assets_to_receive[1].amount,
+            });
+        }
+    }
+
+    Ok(())
+}
+
 #[cfg(test)]
 mod tests {
     use cosmwasm_std::{Addr, Decimal, Uint128};
diff --git a/contracts/pair_xyk_sale_tax/src/error.rs b/contracts/pair_xyk_sale_tax/src/error.rs
index cfdb47e..30d230d 100644
--- a/contracts/pair_xyk_sale_tax/src/error.rs
+++ b/contracts/pair_xyk_sale_tax/src/error.rs
@@ -1,5 +1,5 @@
 use astroport::asset::MINIMUM_LIQUIDITY_AMOUNT;
-use cosmwasm_std::{OverflowError, StdError};
+use cosmwasm_std::{OverflowError, StdError, Uint128};
 use cw_utils::{ParseReplyError, PaymentError};
 use thiserror::Error;
 
@@ -36,6 +36,19 @@ pub enum ContractError {
     #[error("Operation exceeds max splippage tolerance")]
     MaxSlippageAssertion {},
 
+    #[error("Slippage is more than expected: received {0}, expected {1} LP tokens")]
+    ProvideSlippageViolation(Uint128, Uint128),
+
+    #[error("Received {received} {asset_name} but expected {expected}")]
+    WithdrawSlippageViolation {
+        asset_name: String,
+        received: Uint128,
+        expected: Uint128,
+    },
+
+    #[error("Wrong asset length: expected {expected}, actual {actual}")]
+    WrongAssetLength { expected: usize, actual: usize },
+
     #[error("Doubling assets in asset infos")]
     DoublingAssets {},
 
-- 
2.43.0


From 2db4e441bee022fecc1501a4e9f4fe3b0d45667f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:11 +0000
Subject: [PATCH 02/29] fix: concentrated pair enforces min_assets_to_receive
 on withdrawal

---
 contracts/pair_concentrated/src/contract.rs | 42 ++++++++++++++++++++-
 contracts/pair_concentrated/src/error.rs    | 10 +++++
 2 files changed, 51 insertions(+), 1 deletion(-)

diff --git a/contracts/pair_concentrated/src/contract.rs b/contracts/pair_concentrated/src/contract.rs
index 3d5dfb6..8743aba 100644
--- a/contracts/pair_concentrated/src/contract.rs
+++ b/contracts/pair_concentrated/src/contract.rs
@@ -366,7 +366,10 @@ pub fn execute(
             })
             .map_err(Into::into)
         }
-        ExecuteMsg::WithdrawLiquidity { assets, .. } => withdraw_liquidity(deps, env, info, assets),
+        ExecuteMsg::WithdrawLiquidity {
+            assets,
+            min_assets_to_receive,
+        } => withdraw_liquidity(deps, env, info, assets, min_assets_to_receive),
         _ => Err(ContractError::NotSupported {}),
     }
 }
@@ -552,11 +555,14 @@ pub fn provide_liquidity(
 /// * **sender** address that will receive assets back from the pair contract
 ///
 /// * **assets** defines number of coins a user wants to withdraw per each asset.
+///
+/// * **min_assets_to_receive** is an optional parameter which specifies the minimum amounts of assets to receive.
 fn withdraw_liquidity(
     deps: DepsMut,
     env: Env,
     info: MessageInfo,
     assets: Vec<Asset>,
+    min_assets_to_receive: Option<Vec<Asset>>,
 ) -> Result<Response, ContractError> {
     let mut config = CONFIG.load(deps.storage)?;
 
@@ -610,6 +616,8 @@ fn withdraw_liquidity(
         })
         .collect::<StdResult<Vec<_>>>()?;
 
+    ensure_min_assets_to_receive(&refund_assets, min_assets_to_receive)?;
+
     messages.extend(
         refund_assets
             .iter()
@@ -920,3 +928,35 @@ pub fn migrate(deps: DepsMut, _env: Env, _msg: Empty) -> Result<Response, Contra
         .add_attribute("new_contract_name", CONTRACT_NAME)
         .add_attribute("new_contract_version", CONTRACT_VERSION))
 }
+
+/// Checks that a withdrawer receives at least the requested minimum of every asset.
+fn ensure_min_assets_to_receive(
+    refund_assets: &[Asset],
+    min_assets_to_receive: Option<Vec<Asset>>,
+) -> Result<(), ContractError> {
+    if let Some(min_assets_to_receive) = min_assets_to_receive {
+        if refund_assets.len() != min_assets_to_receive.len() {
+            return Err(ContractError::WrongAssetLength {
+                expected: refund_assets.len(),
+                actual: min_assets_to_receive.len(),
+            });
+        }
+
+        for min_asset in &min_assets_to_receive {
+            let refund = refund_assets
+                .iter()
+                .find(|asset| asset.info == min_asset.info)
+                .ok_or_else(|| ContractError::InvalidAsset(min_asset.info.to_string()))?;
+
+            if refund.amount < min_asset.amount {
+                return Err(ContractError::WithdrawSlippageViolation {
+                    asset_name: refund.info.to_string(),
+                    received: refund.amount,
+                    expected: min_asset.amount,
+                });
+            }
+        }
+    }
+
+    Ok(())
+}
diff --git a/contracts/pair_concentrated/src/error.rs b/contracts/pair_concentrated/src/error.rs
index b4e0cd5..761dead 100644
--- a/contracts/pair_concentrated/src/error.rs
+++ b/contracts/pair_concentrated/src/error.rs
@@ -70,6 +70,16 @@ pub enum ContractError {
     #[error("Slippage is more than expected: received {0}, expected {1} LP tokens")]
     ProvideSlippageViolation(Uint128, Uint128),
 
+    #[error("Received {received} {asset_name} but expected {expected}")]
+    WithdrawSlippageViolation {
+        asset_name: String,
+        received: Uint128,
+        expected: Uint128,
+    },
+
+    #[error("Wrong asset length: expected {expected}, actual {actual}")]
+    WrongAssetLength { expected: usize, actual: usize },
+
     #[error("Operation is not supported")]
     NotSupported {},
 }
-- 
2.43.0


From 11ba500dfadf239c3f504742a6009ff25ca84f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:33 +0000
Subject: [PATCH 03/29] fix: stable pair accumulates prices at the balances
 before the deposit

---
 contracts/pair_stable/src/contract.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/contracts/pair_stable/src/contract.rs b/contracts/pair_stable/src/contract.rs
index 332edbc..2a5cc38 100644
--- a/contracts/pair_stable/src/contract.rs
+++ b/contracts/pair_stable/src/contract.rs
@@ -392,6 +392,18 @@ pub fn provide_liquidity(
 
     let auto_stake = auto_stake.unwrap_or(false);
 
+    // Cumulative prices must be updated with pool balances before this deposit
+    let old_pools = assets_collection
+        .iter()
+        .map(|(deposit, pool)| {
+            let precision = get_precision(deps.storage, &deposit.info)?;
+            Ok(DecimalAsset {
+                info: deposit.info.clone(),
+                amount: Decimal256::with_precision(*pool, precision)?,
+            })
+        })
+        .collect::<StdResult<Vec<_>>>()?;
+
     let share = calculate_shares(deps.as_ref(), &env, &config, total_share, assets_collection)?;
 
     if total_share.is_zero() {
@@ -425,18 +437,7 @@ pub fn provide_liquidity(
         auto_stake,
     )?);
 
-    let pools = pools
-        .into_iter()
-        .map(|(info, amount)| {
-            let precision = get_precision(deps.storage, &info)?;
-            Ok(DecimalAsset {
-                info,
-                amount: Decimal256::with_precision(amount, precision)?,
-            })
-        })
-        .collect::<StdResult<Vec<_>>>()?;
-
-    if accumulate_prices(deps.storage, &env, &mut config, &pools)? {
+    if accumulate_prices(deps.storage, &env, &mut config, &old_pools)? {
         CONFIG.save(deps.storage, &config)?;
     }
 
-- 
2.43.0


From 9b2a217679b59407a891ba2c033c4bde9d4a4d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:07 +0000
Subject: [PATCH 04/29] fix: observation average drops the oldest value once
 the buffer is full

---
 contracts/pair_concentrated/src/utils.rs | 4 ++--
 contracts/pair_stable/src/utils.rs       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/contracts/pair_concentrated/src/utils.rs b/contracts/pair_concentrated/src/utils.rs
index 4a64a15..f6650cc 100644
--- a/contracts/pair_concentrated/src/utils.rs
+++ b/contracts/pair_concentrated/src/utils.rs
@@ -69,9 +69,9 @@ pub fn accumulate_swap_sizes(storage: &mut dyn Storage, env: &Env) -> BufferResu
         if let Some(last_obs) = buffer.read_last(storage)? {
             // Skip saving observation if it has been already saved
             if last_obs.ts < precommit_ts {
-                // Since this is circular buffer the next index contains the oldest value
+                // Since this is circular buffer the head index contains the oldest value once it is full
                 let count = buffer.capacity();
-                if let Some(oldest_obs) = buffer.read_single(storage, buffer.head() + 1)? {
+                if let Some(oldest_obs) = buffer.read_single(storage, buffer.head())? {
                     let price_sma = safe_sma_calculation(
                         last_obs.price_sma,
                         oldest_obs.price,
diff --git a/contracts/pair_stable/src/utils.rs b/contracts/pair_stable/src/utils.rs
index 71341e2..548925f 100644
--- a/contracts/pair_stable/src/utils.rs
+++ b/contracts/pair_stable/src/utils.rs
@@ -346,9 +346,9 @@ pub fn accumulate_swap_sizes(storage: &mut dyn Storage, env: &Env) -> BufferResu
         if let Some(last_obs) = buffer.read_last(storage)? {
             // Skip saving observation if it has been already saved
             if last_obs.ts < precommit_ts {
-                // Since this is circular buffer the next index contains the oldest value
+                // Since this is circular buffer the head index contains the oldest value once it is full
                 let count = buffer.capacity();
-                if let Some(oldest_obs) = buffer.read_single(storage, buffer.head() + 1)? {
+                if let Some(oldest_obs) = buffer.read_single(storage, buffer.head())? {
                     let price_sma = safe_sma_calculation(
                         last_obs.price_sma,
                         oldest_obs.price,
-- 
2.43.0


From 6c4ead226563dc7420d9f95a7ea892ca383fdac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:01 +0000
Subject: [PATCH 05/29] fix: concentrated pool's mid_fee can not be raised to
 its out_fee

---
 packages/astroport_pcl_common/src/state.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/packages/astroport_pcl_common/src/state.rs b/packages/astroport_pcl_common/src/state.rs
index 95d67cd..b3fca8a 100644
--- a/packages/astroport_pcl_common/src/state.rs
+++ b/packages/astroport_pcl_common/src/state.rs
@@ -92,6 +92,14 @@ impl PoolParams {
         let mut attributes = vec![];
         if let Some(mid_fee) = update_params.mid_fee {
             validate_param("mid_fee", mid_fee, MIN_FEE, MAX_FEE)?;
+            // If out_fee is being updated as well it is compared against the new mid_fee below
+            if update_params.out_fee.is_none() && self.out_fee <= mid_fee {
+                return Err(StdError::generic_err(format!(
+                    "out_fee {} must be more than mid_fee {mid_fee}",
+                    self.out_fee
+                ))
+                .into());
+            }
             self.mid_fee = mid_fee;
             attributes.push(attr("mid_fee", mid_fee.to_string()));
         }
-- 
2.43.0


From 882b2388f3f36112d9ce392a6317d37c483816ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:34 +0000
Subject: [PATCH 06/29] fix: transmuter reverse simulation compares raw amounts
 and rounds the offer up

---
 contracts/pair_transmuter/src/queries.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/contracts/pair_transmuter/src/queries.rs b/contracts/pair_transmuter/src/queries.rs
index b07f8e8..e5f0867 100644
--- a/contracts/pair_transmuter/src/queries.rs
+++ b/contracts/pair_transmuter/src/queries.rs
@@ -118,11 +118,15 @@ pub fn reverse_swap(
         .find(|asset| asset.info == ask_asset.info)
         .ok_or_else(|| ContractError::InvalidAsset(ask_asset.info.to_string()))?;
 
-    let ask_asset = config.normalize(&ask_asset)?;
-
     if ask_pool.amount >= ask_asset.amount {
-        let offer_asset = offer_asset_info.with_balance(ask_asset.amount);
-        config.denormalize(&offer_asset).map(|asset| asset.amount)
+        let ask_asset = config.normalize(&ask_asset)?;
+        let offer_asset = config.denormalize(&offer_asset_info.with_balance(ask_asset.amount))?;
+        // Round up so that the quoted offer is sufficient for the asked amount
+        if config.normalize(&offer_asset)?.amount < ask_asset.amount {
+            Ok(offer_asset.amount + Uint128::one())
+        } else {
+            Ok(offer_asset.amount)
+        }
     } else {
         Err(ContractError::InsufficientPoolBalance {
             asset: ask_asset.info.to_string(),
-- 
2.43.0


From 36c1408648531d8b1e30755511328172be5432fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:44 +0000
Subject: [PATCH 07/29] fix: transmuter pair enforces min_lp_to_receive and
 min_assets_to_receive

---
 contracts/pair_transmuter/src/contract.rs | 43 +++++++++++++++++++++--
 contracts/pair_transmuter/src/error.rs    | 10 ++++++
 2 files changed, 51 insertions(+), 2 deletions(-)

diff --git a/contracts/pair_transmuter/src/contract.rs b/contracts/pair_transmuter/src/contract.rs
index ae87870..96ec270 100644
--- a/contracts/pair_transmuter/src/contract.rs
+++ b/contracts/pair_transmuter/src/contract.rs
@@ -108,6 +108,7 @@ pub fn execute(
             assets,
             auto_stake,
             receiver,
+            min_lp_to_receive,
             ..
         } => {
             ensure!(
@@ -115,7 +116,7 @@ pub fn execute(
                 StdError::generic_err("Auto stake is not supported")
             );
 
-            provide_liquidity(deps, env, info, assets, receiver)
+            provide_liquidity(deps, env, info, assets, receiver, min_lp_to_receive)
         }
         ExecuteMsg::Swap {
             offer_asset,
@@ -123,7 +124,10 @@ pub fn execute(
             ask_asset_info,
             ..
         } => swap(deps, info, offer_asset, ask_asset_info, to),
-        ExecuteMsg::WithdrawLiquidity { assets, .. } => withdraw_liquidity(deps, env, info, assets),
+        ExecuteMsg::WithdrawLiquidity {
+            assets,
+            min_assets_to_receive,
+        } => withdraw_liquidity(deps, env, info, assets, min_assets_to_receive),
         _ => Err(ContractError::NotSupported {}),
     }
 }
@@ -133,11 +137,14 @@ pub fn execute(
 /// All unused LP tokens will be sent back to the sender.
 ///
 /// * **assets** is the vector of assets to withdraw. If this vector is empty, the function will withdraw balanced respective to share.
+///
+/// * **min_assets_to_receive** is an optional parameter which specifies the minimum amounts of assets to receive.
 pub fn withdraw_liquidity(
     deps: DepsMut,
     env: Env,
     info: MessageInfo,
     assets: Vec<Asset>,
+    min_assets_to_receive: Option<Vec<Asset>>,
 ) -> Result<Response, ContractError> {
     let config = CONFIG.load(deps.storage)?;
 
@@ -201,6 +208,29 @@ pub fn withdraw_liquidity(
         assets
     };
 
+    if let Some(min_assets_to_receive) = min_assets_to_receive {
+        for min_asset in min_assets_to_receive {
+            ensure!(
+                pools.iter().any(|pool| pool.info == min_asset.info),
+                ContractError::InvalidAsset(min_asset.info.to_string())
+            );
+
+            let received = refund_assets
+                .iter()
+                .filter(|asset| asset.info == min_asset.info)
+                .map(|asset| asset.amount)
+                .sum::<Uint128>();
+            ensure!(
+                received >= min_asset.amount,
+                ContractError::WithdrawSlippageViolation {
+                    asset_name: min_asset.info.to_string(),
+                    received,
+                    expected: min_asset.amount,
+                }
+            );
+        }
+    }
+
     let send_msgs = refund_assets
         .clone()
         .into_iter()
@@ -225,12 +255,15 @@ pub fn withdraw_liquidity(
 /// * **assets** vector with assets meant to be provided to the pool.
 ///
 /// * **receiver** address that receives LP tokens. If this address isn't specified, the function will default to the caller.
+///
+/// * **min_lp_to_receive** is an optional parameter which specifies the minimum amount of LP tokens to receive.
 pub fn provide_liquidity(
     deps: DepsMut,
     env: Env,
     info: MessageInfo,
     assets: Vec<Asset>,
     receiver: Option<String>,
+    min_lp_to_receive: Option<Uint128>,
 ) -> Result<Response, ContractError> {
     check_assets(deps.api, &assets)?;
 
@@ -244,6 +277,12 @@ pub fn provide_liquidity(
         .map(|asset| config.normalize(asset).unwrap())
         .fold(Uint128::zero(), |acc, asset| acc + asset.amount);
 
+    let min_amount_lp = min_lp_to_receive.unwrap_or_default();
+    ensure!(
+        share >= min_amount_lp,
+        ContractError::ProvideSlippageViolation(share, min_amount_lp)
+    );
+
     // Mint LP token for the caller (or for the receiver if it was set)
     let receiver = addr_opt_validate(deps.api, &receiver)?.unwrap_or_else(|| info.sender.clone());
 
diff --git a/contracts/pair_transmuter/src/error.rs b/contracts/pair_transmuter/src/error.rs
index bf76c08..be9d323 100644
--- a/contracts/pair_transmuter/src/error.rs
+++ b/contracts/pair_transmuter/src/error.rs
@@ -56,4 +56,14 @@ pub enum ContractError {
 
     #[error("ask_asset_info must be set for pools with >2 assets")]
     AskAssetMustBeSet {},
+
+    #[error("Slippage is more than expected: received {0}, expected {1} LP tokens")]
+    ProvideSlippageViolation(Uint128, Uint128),
+
+    #[error("Received {received} {asset_name} but expected {expected}")]
+    WithdrawSlippageViolation {
+        asset_name: String,
+        received: Uint128,
+        expected: Uint128,
+    },
 }
-- 
2.43.0


From ede04382beed5cdbec441c7602764918d52df8be Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 08/29] fix: do not record orphaned rewards twice when a reward
 is removed from a pool

---
 contracts/tokenomics/incentives/src/state.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/contracts/tokenomics/incentives/src/state.rs b/contracts/tokenomics/incentives/src/state.rs
index d06659a..d0332a1 100644
--- a/contracts/tokenomics/incentives/src/state.rs
+++ b/contracts/tokenomics/incentives/src/state.rs
@@ -379,9 +379,10 @@ impl PoolInfo {
             .iter()
             .find_position(|reward| matches!(&reward.reward, RewardType::Ext { info, .. } if info == reward_asset))
             .ok_or_else(|| ContractError::RewardNotFound { pool: lp_asset.to_string(), reward: reward_asset.to_string() })?;
+        // Orphaned rewards are returned to the receiver below thus they must not be recorded as orphaned once again
         self.rewards_to_remove.insert(
             reward_info.reward.clone(),
-            (reward_info.index, reward_info.orphaned),
+            (reward_info.index, Decimal256::zero()),
         );
         let reward_info = self.rewards.remove(pos);
 
-- 
2.43.0


From c846d7d4b015f168cf4ff9d7603e051f206b9d89 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 09/29] fix: keep the reward token limit when ASTRO is an
 external reward on top of it

---
 contracts/tokenomics/incentives/src/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/tokenomics/incentives/src/state.rs b/contracts/tokenomics/incentives/src/state.rs
index d0332a1..75b2152 100644
--- a/contracts/tokenomics/incentives/src/state.rs
+++ b/contracts/tokenomics/incentives/src/state.rs
@@ -280,7 +280,7 @@ impl PoolInfo {
 
         // Check that we don't exceed the maximum number of reward tokens per pool.
         // Allowing ASTRO reward to exceed this limit
-        if ext_rewards_len == MAX_REWARD_TOKENS as usize
+        if ext_rewards_len >= MAX_REWARD_TOKENS as usize
             && maybe_active_schedule.is_none()
             && schedule.reward_info.ne(astro_token)
         {
-- 
2.43.0


From 713eb0fe3ffdfb3e72bbb809de793152e6702bde Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 10/29] fix: respect the limit of the pool stakers query

---
 contracts/tokenomics/incentives/src/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/tokenomics/incentives/src/state.rs b/contracts/tokenomics/incentives/src/state.rs
index 75b2152..011685b 100644
--- a/contracts/tokenomics/incentives/src/state.rs
+++ b/contracts/tokenomics/incentives/src/state.rs
@@ -497,7 +497,7 @@ pub fn list_pool_stakers(
     limit: Option<u8>,
 ) -> StdResult<Vec<(Addr, Uint128)>> {
     let start = start_after.as_ref().map(Bound::exclusive);
-    let limit = limit.unwrap_or(MAX_PAGE_LIMIT).max(MAX_PAGE_LIMIT);
+    let limit = limit.unwrap_or(MAX_PAGE_LIMIT).min(MAX_PAGE_LIMIT);
     USER_INFO
         .prefix(lp_token)
         .range(storage, start, None, Order::Ascending)
-- 
2.43.0


From 04be7ced8784cdaca010d1a3abb8cfc384ff8e65 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:36:15 +0000
Subject: [PATCH 11/29] fix: blocking both assets of a pool at once disables it
 once

---
 contracts/tokenomics/incentives/src/execute.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/contracts/tokenomics/incentives/src/execute.rs b/contracts/tokenomics/incentives/src/execute.rs
index 63cee31..4792ea2 100644
--- a/contracts/tokenomics/incentives/src/execute.rs
+++ b/contracts/tokenomics/incentives/src/execute.rs
@@ -522,7 +522,10 @@ fn update_blocked_pool_tokens(
                 }
 
                 for (lp_asset, asset_infos, alloc_points) in &active_pools {
-                    if asset_infos.contains(token_to_block) {
+                    // Both pool's assets may be blocked at once
+                    if asset_infos.contains(token_to_block)
+                        && !to_disable.iter().any(|(lp, _)| lp == lp_asset)
+                    {
                         to_disable.push((lp_asset.clone(), alloc_points));
                     }
                 }
-- 
2.43.0


From 4dfa87e0fe995defd9cda22d0e3c9eea5cac1d64 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:36:15 +0000
Subject: [PATCH 12/29] fix: deactivate an active pool even if its reward per
 second is zero

---
 contracts/tokenomics/incentives/src/utils.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/contracts/tokenomics/incentives/src/utils.rs b/contracts/tokenomics/incentives/src/utils.rs
index d213c5a..23a2304 100644
--- a/contracts/tokenomics/incentives/src/utils.rs
+++ b/contracts/tokenomics/incentives/src/utils.rs
@@ -113,13 +113,17 @@ pub fn deactivate_pool(
     let lp_token_asset = determine_asset_info(&lp_token, deps.api)?;
 
     match PoolInfo::may_load(deps.storage, &lp_token_asset)? {
-        Some(mut pool_info) if pool_info.is_active_pool() => {
+        Some(mut pool_info) => {
             let mut active_pools = ACTIVE_POOLS.load(deps.storage)?;
 
-            let (ind, _) = active_pools
+            // Pool can be active even if its reward per second is zero
+            let ind = match active_pools
                 .iter()
-                .find_position(|(lp_asset, _)| lp_asset == &lp_token_asset)
-                .unwrap();
+                .position(|(lp_asset, _)| lp_asset == &lp_token_asset)
+            {
+                Some(ind) => ind,
+                None => return Ok(Response::new()),
+            };
             let (_, alloc_points) = active_pools.swap_remove(ind);
 
             pool_info.update_rewards(deps.storage, &env, &lp_token_asset)?;
-- 
2.43.0


From 731fd7e55239a2e5f50e58ee81494671ec1ac74e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:36:15 +0000
Subject: [PATCH 13/29] fix: keep all indexes of rewards finished in the same
 block

---
 contracts/tokenomics/incentives/src/state.rs | 24 +++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/contracts/tokenomics/incentives/src/state.rs b/contracts/tokenomics/incentives/src/state.rs
index 011685b..6f531c4 100644
--- a/contracts/tokenomics/incentives/src/state.rs
+++ b/contracts/tokenomics/incentives/src/state.rs
@@ -451,14 +451,22 @@ impl PoolInfo {
                 .into_iter()
                 .try_for_each(|(is_zero, group)| {
                     if is_zero {
-                        let finished_indexes = group
-                            .map(|(reward_asset_info, (index, _))| (reward_asset_info, index))
-                            .collect_vec();
-                        FINISHED_REWARD_INDEXES.save(
-                            storage,
-                            (lp_token, self.last_update_ts),
-                            &finished_indexes,
-                        )
+                        // Keep indexes which were finished earlier in the same block
+                        FINISHED_REWARD_INDEXES
+                            .update::<_, StdError>(
+                                storage,
+                                (lp_token, self.last_update_ts),
+                                |finished| {
+                                    let mut finished = finished.unwrap_or_default();
+                                    finished.extend(group.map(
+                                        |(reward_asset_info, (index, _))| {
+                                            (reward_asset_info, index)
+                                        },
+                                    ));
+                                    Ok(finished)
+                                },
+                            )
+                            .map(|_| ())
                     } else {
                         // Processing finished schedules with orphaned rewards
                         for (reward, (_, orphaned_amount)) in group {
-- 
2.43.0


From 0217816ea83cc313167ebbc82a3ef6b7d1230b72 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 14/29] fix: reset user index of a reward which finished in the
 block of the last claim

---
 contracts/tokenomics/incentives/src/state.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/contracts/tokenomics/incentives/src/state.rs b/contracts/tokenomics/incentives/src/state.rs
index 6f531c4..47a548a 100644
--- a/contracts/tokenomics/incentives/src/state.rs
+++ b/contracts/tokenomics/incentives/src/state.rs
@@ -572,7 +572,7 @@ impl UserInfo {
     /// This function is called after processing finished schedules and before processing active
     /// schedules for a specific user.
     /// The idea is as follows:
-    /// - get all finished rewards from FINISHED_REWARDS_INDEXES which finished after last time when user claimed rewards
+    /// - get all finished rewards from FINISHED_REWARDS_INDEXES which finished at or after last time when user claimed rewards
     /// - merge them with rewards_to_remove
     /// - iterate over all finished rewards and set user index to 0.
     pub fn reset_user_index(
@@ -581,11 +581,13 @@ impl UserInfo {
         lp_token: &AssetInfo,
         pool_info: &PoolInfo,
     ) -> StdResult<()> {
+        // Including rewards which finished in the very block of the last claim: user might have claimed
+        // them right before that, so their position still contains an index of the finished reward.
         let mut finished: HashSet<_> = FINISHED_REWARD_INDEXES
             .prefix(lp_token)
             .range(
                 storage,
-                Some(Bound::exclusive(self.last_claim_time)),
+                Some(Bound::inclusive(self.last_claim_time)),
                 None,
                 Order::Ascending,
             )
@@ -644,6 +646,12 @@ impl UserInfo {
 
         let lp_tokens_amount = Uint256::from(self.amount);
 
+        // These rewards finished in the very block of the last claim and are fully claimed.
+        // Whatever comes after them starts from the zero index.
+        let fully_claimed = FINISHED_REWARD_INDEXES
+            .may_load(storage, (lp_token, self.last_claim_time))?
+            .unwrap_or_default();
+
         finished_iter
             .chain(to_remove_iter)
             .into_group_map_by(|(reward_info, _)| reward_info.clone())
@@ -658,7 +666,12 @@ impl UserInfo {
                             let user_reward_index = self
                                 .last_rewards_index
                                 .iter()
-                                .filter(|(reward_type, _)| reward_type.is_external())
+                                .filter(|(reward_type, _)| {
+                                    reward_type.is_external()
+                                        && !fully_claimed
+                                            .iter()
+                                            .any(|(info, _)| info == reward_type.asset_info())
+                                })
                                 .find_map(|(reward_type, index)| {
                                     if reward_type.asset_info() == &reward_info {
                                         Some(*index)
-- 
2.43.0


From a127cf11f81303dc38219f2df084e90410c1ae87 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 15/29] fix: bypassed schedules of a removed reward never emit
 more than they were funded for

---
 contracts/tokenomics/incentives/src/state.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/contracts/tokenomics/incentives/src/state.rs b/contracts/tokenomics/incentives/src/state.rs
index 47a548a..f53fbe5 100644
--- a/contracts/tokenomics/incentives/src/state.rs
+++ b/contracts/tokenomics/incentives/src/state.rs
@@ -423,6 +423,24 @@ impl PoolInfo {
 
                     EXTERNAL_REWARD_SCHEDULES.remove(storage, (lp_asset, reward_asset, update_ts));
                 })
+        } else if EXTERNAL_REWARD_SCHEDULES
+            .prefix((lp_asset, reward_asset))
+            .range(
+                storage,
+                Some(Bound::exclusive(next_update_ts)),
+                None,
+                Order::Ascending,
+            )
+            .next()
+            .is_some()
+        {
+            // Bypassed schedules are funded starting from this point only.
+            // Ensure they never start earlier if this reward is added to the pool again.
+            EXTERNAL_REWARD_SCHEDULES.save(
+                storage,
+                (lp_asset, reward_asset, next_update_ts),
+                &Decimal256::zero(),
+            )?;
         }
 
         // Take orphaned rewards as well
-- 
2.43.0


From a022d7d28b8a3e51e1999155c9918963a50caa33 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:14:27 +0000
Subject: [PATCH 16/29] fix: predict the first stake of a pre-funded staking
 contract

---
 contracts/pair_xastro/src/contract.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/pair_xastro/src/contract.rs b/contracts/pair_xastro/src/contract.rs
index 853c57f..7ae5522 100644
--- a/contracts/pair_xastro/src/contract.rs
+++ b/contracts/pair_xastro/src/contract.rs
@@ -190,7 +190,7 @@ pub fn predict_stake(
 ) -> Result<Uint128, ContractError> {
     let (total_deposit, total_shares) = query_deposit_and_shares(querier, config)?;
 
-    if total_deposit.is_zero() {
+    if total_shares.is_zero() || total_deposit.is_zero() {
         if amount.saturating_sub(MINIMUM_STAKE_AMOUNT).is_zero() {
             return Err(ContractError::MinimumStakeAmountError {});
         }
-- 
2.43.0


From bc67758e9b853ffc7411bd7752f888ab3012b07e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:14:56 +0000
Subject: [PATCH 17/29] fix: reverse quotes of the staking pair are sufficient
 and cover the first stake

---
 contracts/pair_xastro/src/contract.rs | 40 +++++++++++++++++++++++++++
 contracts/pair_xastro/src/queries.rs  |  6 ++--
 2 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/contracts/pair_xastro/src/contract.rs b/contracts/pair_xastro/src/contract.rs
index 7ae5522..0fb6683 100644
--- a/contracts/pair_xastro/src/contract.rs
+++ b/contracts/pair_xastro/src/contract.rs
@@ -218,3 +218,43 @@ pub fn predict_unstake(
 
     Ok(amount.multiply_ratio(total_deposit, total_shares))
 }
+
+/// Amount of xASTRO that has to be unstaked to receive at least `ask_amount` of ASTRO.
+pub fn predict_unstake_offer(
+    querier: QuerierWrapper,
+    config: &Config,
+    ask_amount: Uint128,
+) -> Result<Uint128, ContractError> {
+    let (total_deposit, total_shares) = query_deposit_and_shares(querier, config)?;
+
+    ensure!(
+        total_deposit >= ask_amount && !total_deposit.is_zero(),
+        ContractError::InvalidUnstakeAmount {
+            want: ask_amount,
+            total: total_deposit
+        }
+    );
+
+    Ok(ask_amount
+        .checked_mul_ceil((total_shares, total_deposit))
+        .map_err(|err| StdError::generic_err(err.to_string()))?)
+}
+
+/// Amount of ASTRO that has to be staked to receive at least `ask_amount` of xASTRO.
+pub fn predict_stake_offer(
+    querier: QuerierWrapper,
+    config: &Config,
+    ask_amount: Uint128,
+) -> Result<Uint128, ContractError> {
+    let (total_deposit, total_shares) = query_deposit_and_shares(querier, config)?;
+
+    if total_shares.is_zero() || total_deposit.is_zero() {
+        Ok(ask_amount
+            .checked_add(MINIMUM_STAKE_AMOUNT)
+            .map_err(StdError::from)?)
+    } else {
+        Ok(ask_amount
+            .checked_mul_ceil((total_deposit, total_shares))
+            .map_err(|err| StdError::generic_err(err.to_string()))?)
+    }
+}
diff --git a/contracts/pair_xastro/src/queries.rs b/contracts/pair_xastro/src/queries.rs
index be4be55..d887816 100644
--- a/contracts/pair_xastro/src/queries.rs
+++ b/contracts/pair_xastro/src/queries.rs
@@ -6,7 +6,7 @@ use astroport::pair::{
 };
 use astroport::querier::query_factory_config;
 
-use crate::contract::{predict_stake, predict_unstake};
+use crate::contract::{predict_stake, predict_stake_offer, predict_unstake, predict_unstake_offer};
 use crate::error::ContractError;
 use crate::state::{Config, CONFIG};
 
@@ -40,10 +40,10 @@ pub fn query(deps: Deps, _env: Env, msg: QueryMsg) -> Result<Binary, ContractErr
 
             let offer_amount = match &ask_asset.info {
                 AssetInfo::NativeToken { denom } if denom == &config.astro_denom => {
-                    predict_stake(deps.querier, &config, ask_asset.amount)
+                    predict_unstake_offer(deps.querier, &config, ask_asset.amount)
                 }
                 AssetInfo::NativeToken { denom } if denom == &config.xastro_denom => {
-                    predict_unstake(deps.querier, &config, ask_asset.amount)
+                    predict_stake_offer(deps.querier, &config, ask_asset.amount)
                 }
                 _ => Err(ContractError::InvalidAsset(ask_asset.info.to_string())),
             }?;
-- 
2.43.0


From e793c7df1595674a324ce03050670c19c9a37436 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:14:56 +0000
Subject: [PATCH 18/29] fix: refuse duplicate initial balances in the snapshot
 token

---
 contracts/tokenomics/xastro_token/src/contract.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/contracts/tokenomics/xastro_token/src/contract.rs b/contracts/tokenomics/xastro_token/src/contract.rs
index c49495e..8a8b7c0 100644
--- a/contracts/tokenomics/xastro_token/src/contract.rs
+++ b/contracts/tokenomics/xastro_token/src/contract.rs
@@ -177,6 +177,9 @@ pub fn create_accounts(deps: &mut DepsMut, env: &Env, accounts: &[Cw20Coin]) ->
 
     for row in accounts {
         let address = deps.api.addr_validate(&row.address)?;
+        if BALANCES.may_load(deps.storage, &address)?.is_some() {
+            return Err(StdError::generic_err("Duplicate initial balance addresses"));
+        }
         BALANCES.save(deps.storage, &address, &row.amount, env.block.height)?;
         total_supply += row.amount;
     }
-- 
2.43.0


From 3ba5f0585bb6549e6ff5a361c982dc63b11afe50 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:34:29 +0000
Subject: [PATCH 19/29] fix: no reverse quote for unstaking when nothing is
 staked

---
 contracts/pair_xastro/src/contract.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/pair_xastro/src/contract.rs b/contracts/pair_xastro/src/contract.rs
index 0fb6683..c3cec54 100644
--- a/contracts/pair_xastro/src/contract.rs
+++ b/contracts/pair_xastro/src/contract.rs
@@ -228,7 +228,7 @@ pub fn predict_unstake_offer(
     let (total_deposit, total_shares) = query_deposit_and_shares(querier, config)?;
 
     ensure!(
-        total_deposit >= ask_amount && !total_deposit.is_zero(),
+        total_deposit >= ask_amount && !total_deposit.is_zero() && !total_shares.is_zero(),
         ContractError::InvalidUnstakeAmount {
             want: ask_amount,
             total: total_deposit
-- 
2.43.0


From 29b07d719c4139a7752417d03dea016aee330c97 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:36:53 +0000
Subject: [PATCH 20/29] fix: the dev fund gets only the proceeds of its swap

---
 contracts/tokenomics/maker/src/contract.rs | 10 +++++++++-
 contracts/tokenomics/maker/src/reply.rs    |  6 ++++--
 contracts/tokenomics/maker/src/state.rs    |  3 +++
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/contracts/tokenomics/maker/src/contract.rs b/contracts/tokenomics/maker/src/contract.rs
index 283fe45..41f3b4d 100644
--- a/contracts/tokenomics/maker/src/contract.rs
+++ b/contracts/tokenomics/maker/src/contract.rs
@@ -22,7 +22,9 @@ use astroport::pair::MAX_ALLOWED_SLIPPAGE;
 use crate::error::ContractError;
 use crate::migration::migrate_from_v120_plus;
 use crate::reply::PROCESS_DEV_FUND_REPLY_ID;
-use crate::state::{BRIDGES, CONFIG, LAST_COLLECT_TS, OWNERSHIP_PROPOSAL, SEIZE_CONFIG};
+use crate::state::{
+    BRIDGES, CONFIG, DEV_ASSET_BALANCE, LAST_COLLECT_TS, OWNERSHIP_PROPOSAL, SEIZE_CONFIG,
+};
 use crate::utils::{
     build_distribute_msg, build_send_msg, build_swap_msg, get_pool, try_build_swap_msg,
     update_second_receiver_cfg, validate_bridge, validate_cooldown, BRIDGES_EXECUTION_MAX_DEPTH,
@@ -666,6 +668,12 @@ fn distribute(
             swap_msg.reply_on = ReplyOn::Success;
             swap_msg.id = PROCESS_DEV_FUND_REPLY_ID;
 
+            // Fees in the dev fund asset which are not collected yet don't belong to the dev fund
+            let dev_asset_balance = dev_fund_conf
+                .asset_info
+                .query_pool(&deps.querier, &env.contract.address)?;
+            DEV_ASSET_BALANCE.save(deps.storage, &dev_asset_balance)?;
+
             result.push(swap_msg);
         }
 
diff --git a/contracts/tokenomics/maker/src/reply.rs b/contracts/tokenomics/maker/src/reply.rs
index 0391765..ab0cb7a 100644
--- a/contracts/tokenomics/maker/src/reply.rs
+++ b/contracts/tokenomics/maker/src/reply.rs
@@ -1,4 +1,4 @@
-use crate::state::CONFIG;
+use crate::state::{CONFIG, DEV_ASSET_BALANCE};
 use astroport::asset::AssetInfoExt;
 #[cfg(not(feature = "library"))]
 use cosmwasm_std::entry_point;
@@ -13,9 +13,11 @@ pub fn reply(deps: DepsMut, env: Env, msg: Reply) -> StdResult<Response> {
             let config = CONFIG.load(deps.storage)?;
             let dev_fund_conf = config.dev_fund_conf.expect("Dev fund config must be set");
 
+            let balance_before = DEV_ASSET_BALANCE.load(deps.storage)?;
             let amount = dev_fund_conf
                 .asset_info
-                .query_pool(&deps.querier, env.contract.address)?;
+                .query_pool(&deps.querier, env.contract.address)?
+                .checked_sub(balance_before)?;
             let dev_fee = dev_fund_conf.asset_info.with_balance(amount);
 
             Ok(Response::new()
diff --git a/contracts/tokenomics/maker/src/state.rs b/contracts/tokenomics/maker/src/state.rs
index 75eec72..3a49e58 100644
--- a/contracts/tokenomics/maker/src/state.rs
+++ b/contracts/tokenomics/maker/src/state.rs
@@ -1,6 +1,7 @@
 use astroport::asset::AssetInfo;
 use astroport::common::OwnershipProposal;
 use astroport::maker::{Config, SeizeConfig};
+use cosmwasm_std::Uint128;
 use cw_storage_plus::{Item, Map};
 
 /// Stores the contract configuration at the given key
@@ -15,3 +16,5 @@ pub const BRIDGES: Map<String, AssetInfo> = Map::new("bridges");
 pub const LAST_COLLECT_TS: Item<u64> = Item::new("last_collect_ts");
 /// Stores seize config
 pub const SEIZE_CONFIG: Item<SeizeConfig> = Item::new("seize_config");
+/// Stores the dev fund asset balance right before ASTRO is swapped into this asset
+pub const DEV_ASSET_BALANCE: Item<Uint128> = Item::new("dev_asset_balance");
-- 
2.43.0


From 33d8c8cdadd7f53a29811ada053f3bf86851cd6c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:54:01 +0000
Subject: [PATCH 21/29] fix: read the last value of circular buffers with a
 capacity close to u32::MAX

---
 packages/circular_buffer/src/lib.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/packages/circular_buffer/src/lib.rs b/packages/circular_buffer/src/lib.rs
index 0b42d95..313224f 100644
--- a/packages/circular_buffer/src/lib.rs
+++ b/packages/circular_buffer/src/lib.rs
@@ -210,10 +210,12 @@ where
 
     /// Read last saved value from storage. Returns None if buffer is empty.
     pub fn read_last(&self, store: &dyn Storage) -> BufferResult<Option<V>> {
-        self.read_single(
-            store,
-            (self.state.capacity + self.state.head - 1) % self.state.capacity,
-        )
+        // The slot before head; the sum of capacity and head may not fit u32
+        let last = match self.state.head {
+            0 => self.state.capacity - 1,
+            head => head - 1,
+        };
+        self.read_single(store, last)
     }
 
     /// Looped read. Returns None if value in buffer does not exist.
-- 
2.43.0


From 8003b57e6ad63b79d167b154e3e10187837f08ef Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:01:58 +0000
Subject: [PATCH 22/29] fix: let concentrated pools trade again after amp and
 gamma changed without trades

The loss guard compared the LP value with that of the last update even if
amp or gamma had moved in between; once the change was over (or stopped)
every swap and deposit was refused.
---
 packages/astroport_pcl_common/src/state.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/astroport_pcl_common/src/state.rs b/packages/astroport_pcl_common/src/state.rs
index b3fca8a..d9acec1 100644
--- a/packages/astroport_pcl_common/src/state.rs
+++ b/packages/astroport_pcl_common/src/state.rs
@@ -326,6 +326,8 @@ impl PoolState {
         let amp_gamma = self.get_amp_gamma(env);
         let block_time = env.block.time.seconds();
         let price_state = &mut self.price_state;
+        // Amp and gamma might have been changing since the last update
+        let params_changed = price_state.last_price_update < self.future_time;
 
         if price_state.last_price_update < block_time {
             let arg = Decimal256::from_ratio(
@@ -345,8 +347,8 @@ impl PoolState {
         if !price_state.xcp_profit_real.is_zero() {
             let xcp_profit_real = xcp / total_lp;
 
-            // If xcp dropped and no ramping happens then this swap makes loss
-            if xcp_profit_real < price_state.xcp_profit_real && block_time >= self.future_time {
+            // If xcp dropped and no ramping happened then this swap makes loss
+            if xcp_profit_real < price_state.xcp_profit_real && !params_changed {
                 return Err(StdError::generic_err(
                     "XCP profit real value dropped. This action makes loss",
                 ));
-- 
2.43.0


From 894a7811337b198cb5ce40217d85d8f136031795 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:02:49 +0000
Subject: [PATCH 23/29] fix: trade in concentrated pools whose LP value fell
 below par

Changing amp or gamma may leave an LP token worth less than at the start;
the repegging condition then subtracted one from less than one and every
swap and deposit failed.
---
 packages/astroport_pcl_common/src/state.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/astroport_pcl_common/src/state.rs b/packages/astroport_pcl_common/src/state.rs
index d9acec1..a10e8a9 100644
--- a/packages/astroport_pcl_common/src/state.rs
+++ b/packages/astroport_pcl_common/src/state.rs
@@ -366,8 +366,8 @@ impl PoolState {
             .max(norm * Decimal256::from_ratio(1u8, 10u8));
 
         if norm >= scale_delta
-            && price_state.xcp_profit_real - Decimal256::one()
-                > (xcp_profit - Decimal256::one()) / TWO
+            && price_state.xcp_profit_real.saturating_sub(Decimal256::one())
+                > xcp_profit.saturating_sub(Decimal256::one()) / TWO
                     + Decimal256::from(pool_params.repeg_profit_threshold)
         {
             let numerator = price_state.price_scale * (norm - scale_delta)
-- 
2.43.0


From ad00b56a3cd61a1ce6a97fd99c8e56052234f8ab Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:22:41 +0000
Subject: [PATCH 24/29] fix: report outstanding protocol rewards in the current
 ASTRO token

After the ASTRO token was replaced, pools which had left the active set kept
the previous token: pending rewards, reward and pool info queries named it
although these rewards are paid in the new one.
---
 contracts/tokenomics/incentives/src/query.rs |  8 +++++---
 contracts/tokenomics/incentives/src/state.rs | 10 ++++++++++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/contracts/tokenomics/incentives/src/query.rs b/contracts/tokenomics/incentives/src/query.rs
index a5f9e72..14d78ea 100644
--- a/contracts/tokenomics/incentives/src/query.rs
+++ b/contracts/tokenomics/incentives/src/query.rs
@@ -35,6 +35,7 @@ pub fn query(deps: Deps, env: Env, msg: QueryMsg) -> Result<Binary, ContractErro
             let lp_asset = determine_asset_info(&lp_token, deps.api)?;
             let mut pool_info = PoolInfo::load(deps.storage, &lp_asset)?;
             pool_info.update_rewards(deps.storage, &env, &lp_asset)?;
+            pool_info.sync_astro_token(&CONFIG.load(deps.storage)?.astro_token);
             Ok(to_json_binary(&pool_info.rewards)?)
         }
         QueryMsg::BlockedTokensList { start_after, limit } => Ok(to_json_binary(
@@ -42,9 +43,9 @@ pub fn query(deps: Deps, env: Env, msg: QueryMsg) -> Result<Binary, ContractErro
         )?),
         QueryMsg::PoolInfo { lp_token } => {
             let lp_asset = determine_asset_info(&lp_token, deps.api)?;
-            Ok(to_json_binary(
-                &PoolInfo::load(deps.storage, &lp_asset)?.into_response(),
-            )?)
+            let mut pool_info = PoolInfo::load(deps.storage, &lp_asset)?;
+            pool_info.sync_astro_token(&CONFIG.load(deps.storage)?.astro_token);
+            Ok(to_json_binary(&pool_info.into_response())?)
         }
         QueryMsg::PoolStakers {
             lp_token,
@@ -170,6 +171,7 @@ pub fn query_pending_rewards(
 
     let mut pool_info = PoolInfo::load(deps.storage, &lp_asset)?;
     pool_info.update_rewards(deps.storage, &env, &lp_asset)?;
+    pool_info.sync_astro_token(&CONFIG.load(deps.storage)?.astro_token);
 
     let mut pos = UserInfo::load_position(deps.storage, &user_addr, &lp_asset)?;
 
diff --git a/contracts/tokenomics/incentives/src/state.rs b/contracts/tokenomics/incentives/src/state.rs
index f53fbe5..abbccdf 100644
--- a/contracts/tokenomics/incentives/src/state.rs
+++ b/contracts/tokenomics/incentives/src/state.rs
@@ -207,8 +207,18 @@ impl PoolInfo {
             .collect()
     }
 
+    /// Pools which don't receive ASTRO emissions anymore might still mention the previous ASTRO token
+    /// while outstanding protocol rewards are always paid in the current one.
+    pub fn sync_astro_token(&mut self, astro_token: &AssetInfo) {
+        if let Some(astro_reward_info) = self.rewards.iter_mut().find(|r| !r.reward.is_external()) {
+            astro_reward_info.reward = RewardType::Int(astro_token.clone());
+        }
+    }
+
     /// Set astro per second for this pool according to alloc points and general astro per second value
     pub fn set_astro_rewards(&mut self, config: &Config, alloc_points: Uint128) {
+        self.sync_astro_token(&config.astro_token);
+
         if let Some(astro_reward_info) = self.rewards.iter_mut().find(|r| !r.reward.is_external()) {
             astro_reward_info.rps = Decimal256::from_ratio(
                 config.astro_per_second * alloc_points,
-- 
2.43.0


From 67b74ef8095d3394bc485724ae64131ae29d9b78 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:42:38 +0000
Subject: [PATCH 25/29] fix: validate the token factory address when the
 factory's tracker settings are first set

---
 contracts/factory/src/contract.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/factory/src/contract.rs b/contracts/factory/src/contract.rs
index 91ee32a..8afae1b 100644
--- a/contracts/factory/src/contract.rs
+++ b/contracts/factory/src/contract.rs
@@ -443,7 +443,7 @@ pub fn update_tracker_config(
             deps.storage,
             &TrackerConfig {
                 code_id: tracker_code_id,
-                token_factory_addr: tokenfactory_tracker,
+                token_factory_addr: deps.api.addr_validate(&tokenfactory_tracker)?.to_string(),
             },
         )?;
     }
-- 
2.43.0


From 8cb13ed77cf3f82d3f53684e8c4ac81e28739c29 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:59:13 +0000
Subject: [PATCH 26/29] fix: charge the mid fee when a concentrated pool with
 zero fee gamma is exactly balanced

---
 packages/astroport_pcl_common/src/state.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/astroport_pcl_common/src/state.rs b/packages/astroport_pcl_common/src/state.rs
index a10e8a9..2464138 100644
--- a/packages/astroport_pcl_common/src/state.rs
+++ b/packages/astroport_pcl_common/src/state.rs
@@ -169,7 +169,13 @@ impl PoolParams {
         let fee_gamma: Decimal256 = self.fee_gamma.into();
         let sum = xp[0] + xp[1];
         let mut k = xp[0] * xp[1] * N_POW2 / sum.pow(2);
-        k = fee_gamma / (fee_gamma + Decimal256::one() - k);
+        let denominator = fee_gamma + Decimal256::one() - k;
+        // Balanced pool with zero fee_gamma
+        k = if denominator.is_zero() {
+            Decimal256::one()
+        } else {
+            fee_gamma / denominator
+        };
 
         if k <= FEE_TOL {
             k = Decimal256::zero()
-- 
2.43.0


From ed0c07aec6a86633f0b194ac988c1ab9dde00f14 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:59:13 +0000
Subject: [PATCH 27/29] fix: skip the price scale adjustment when the oracle
 price equals the price scale

---
 packages/astroport_pcl_common/src/state.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/astroport_pcl_common/src/state.rs b/packages/astroport_pcl_common/src/state.rs
index 2464138..6879ac4 100644
--- a/packages/astroport_pcl_common/src/state.rs
+++ b/packages/astroport_pcl_common/src/state.rs
@@ -371,7 +371,8 @@ impl PoolState {
         let scale_delta = Decimal256::from(pool_params.min_price_scale_delta)
             .max(norm * Decimal256::from_ratio(1u8, 10u8));
 
-        if norm >= scale_delta
+        if !norm.is_zero()
+            && norm >= scale_delta
             && price_state.xcp_profit_real.saturating_sub(Decimal256::one())
                 > xcp_profit.saturating_sub(Decimal256::one()) / TWO
                     + Decimal256::from(pool_params.repeg_profit_threshold)
-- 
2.43.0


From 5128cf219b2f2d3039ac107170d80f7a5b011f7d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:24:34 +0000
Subject: [PATCH 28/29] fix: a route started inside another route does not
 replace its minimum receive

The router kept the data of the route being executed in a single item. A
token contract called during a swap could start a route of its own, and the
reply of the outer route then asserted the inner route's minimum for the
inner route's receiver.
---
 contracts/router/src/contract.rs | 24 ++++++++++++++----------
 contracts/router/src/state.rs    |  4 +++-
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/contracts/router/src/contract.rs b/contracts/router/src/contract.rs
index 16ca889..1e9b5e0 100644
--- a/contracts/router/src/contract.rs
+++ b/contracts/router/src/contract.rs
@@ -181,15 +181,14 @@ pub fn execute_swap_operations(
         .collect::<StdResult<Vec<_>>>()?;
 
     let prev_balance = target_asset_info.query_pool(&deps.querier, &to)?;
-    REPLY_DATA.save(
-        deps.storage,
-        &ReplyData {
-            asset_info: target_asset_info,
-            prev_balance,
-            minimum_receive,
-            receiver: to.to_string(),
-        },
-    )?;
+    let mut routes = REPLY_DATA.may_load(deps.storage)?.unwrap_or_default();
+    routes.push(ReplyData {
+        asset_info: target_asset_info,
+        prev_balance,
+        minimum_receive,
+        receiver: to.to_string(),
+    });
+    REPLY_DATA.save(deps.storage, &routes)?;
 
     Ok(Response::new().add_submessages(messages))
 }
@@ -201,7 +200,12 @@ pub fn reply(deps: DepsMut, _env: Env, msg: Reply) -> Result<Response, ContractE
             id: AFTER_SWAP_REPLY_ID,
             result: SubMsgResult::Ok(..),
         } => {
-            let reply_data = REPLY_DATA.load(deps.storage)?;
+            let mut routes = REPLY_DATA.load(deps.storage)?;
+            let reply_data = routes
+                .pop()
+                .ok_or_else(|| StdError::generic_err("No route is being executed"))?;
+            REPLY_DATA.save(deps.storage, &routes)?;
+
             let receiver_balance = reply_data
                 .asset_info
                 .query_pool(&deps.querier, reply_data.receiver)?;
diff --git a/contracts/router/src/state.rs b/contracts/router/src/state.rs
index ea34fef..6cdd8d1 100644
--- a/contracts/router/src/state.rs
+++ b/contracts/router/src/state.rs
@@ -13,7 +13,9 @@ pub struct Config {
     pub astroport_factory: Addr,
 }
 
-pub const REPLY_DATA: Item<ReplyData> = Item::new("reply_data");
+/// Data of the routes being executed, innermost last. A token contract called during a swap may
+/// start a route of its own before the outer one is finished.
+pub const REPLY_DATA: Item<Vec<ReplyData>> = Item::new("reply_data_stack");
 
 #[cw_serde]
 pub struct ReplyData {
-- 
2.43.0


From 0e6298cbf8261a98b152ea64be4b62325a5068ac Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:05:17 +0000
Subject: [PATCH 29/29] fix: coins of the pool which are not among the listed
 deposits are refused

---
 packages/astroport/src/asset.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/astroport/src/asset.rs b/packages/astroport/src/asset.rs
index 907050c..6ecc093 100644
--- a/packages/astroport/src/asset.rs
+++ b/packages/astroport/src/asset.rs
@@ -338,9 +338,10 @@ impl CoinsExt for Vec<Coin> {
         })?;
 
         self.iter().try_for_each(|coin| {
-            if pool_asset_infos.contains(&AssetInfo::NativeToken {
+            let coin_info = AssetInfo::NativeToken {
                 denom: coin.denom.clone(),
-            }) {
+            };
+            if input_assets.iter().any(|input| input.info == coin_info) {
                 Ok(())
             } else {
                 Err(StdError::generic_err(format!(
-- 
2.43.0

