#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PCL = "packages/astroport_pcl_common/src"
H, I, C, F, S = "histories", "inputs", "configurations", "fault_sequences", "schedules"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), tech=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None),
        _tech=tech, _note=note))
PAIRS = ["contracts/pair/src/contract.rs", "contracts/pair_xyk_sale_tax/src/contract.rs", "contracts/pair_stable/src/contract.rs", "contracts/pair_concentrated/src/contract.rs"]
UNIT = "Unit and integration tests run a handful of fixed sequences with hand-picked numbers and mostly assert one output; "
p("P01", "Swaps move exactly the stated amounts and nothing else",
  "In every pool type a successful swap takes exactly the offered amount from the trader, delivers exactly the reported return amount of the asked asset to the chosen receiver, pays exactly the reported protocol fee, fee share and sale tax to their configured recipients, and changes no other balance of any account nor the LP supply. A swap whose payment differs from the stated offer, of a token the pool does not trade, or announced by somebody else than the paying token contract is refused; a rejected swap moves no funds at all.",
  [H, I, C], "every reachable pool state, offer size, token kind (bank or cw20), decimals, fee and recipient configuration", UNIT + "none compares the complete ledger before and after arbitrary swaps.",
  PAIRS + ["contracts/pair_transmuter/src/contract.rs"], [("swap handler message construction", f) for f in PAIRS],
  [("pool balances", "bank/cw20 balances held by the pair", "bank module / cw20 storage")], ["ledger difference around every swap, swap event attributes"])
p("P02", "Swap commission is exact and split exactly between LPs, protocol and sharer",
  "The commission charged on a swap equals the configured rate applied to the gross output (for concentrated pools: a rate between the configured mid and out fee), the fee-share recipient receives exactly its basis points of the commission, the protocol receives exactly its configured part of what is left and only when a fee address is set, and everything else stays in the pool. A fee share can only be set above 0 and up to 10 %.",
  [H, I, C], "every fee rate, protocol rate, share rate, presence of the fee address, and trade size including dust", UNIT + "combinations of fee share, protocol fee and rounding at small amounts are not sampled.",
  PAIRS + [f"{PCL}/utils.rs", "packages/astroport/src/querier.rs"], [("commission / fee share / maker fee computation in swap", f) for f in PAIRS], [], ["swap attributes and ledger difference"])
p("P03", "Constant-product pools follow x*y=k and LP value never falls",
  "In constant-product pools (plain and sale-tax) the gross output of a swap equals the constant-product formula to the unit, and the product of the reserves per squared LP supply never decreases over any sequence of swaps, deposits, withdrawals and donations.",
  [H, I], "every history of operations by any number of users, every reserve ratio and size", UNIT + "no test follows the invariant over long mixed histories.",
  PAIRS[:2], [("compute_swap", PAIRS[0]), ("calculate_shares", PAIRS[0]), ("get_share_in_assets", PAIRS[0])], [], ["pool balances and LP supply after every operation"])
p("P04", "Stable pools follow the StableSwap curve and LP value never falls",
  "The gross output of a stable-pool swap matches the StableSwap curve at the current amplification to within the documented numeric tolerance, the reported spread is the shortfall against parity, and the invariant per LP token does not decrease (beyond that tolerance) over any sequence of swaps, deposits, withdrawals and donations at constant amplification.",
  [H, I, C], "every amplification, pair of decimals, pool composition and history", "The stable pair has no test that runs in the baseline; even its own tests check few points of the curve.",
  ["contracts/pair_stable/src/contract.rs", "contracts/pair_stable/src/math.rs", "contracts/pair_stable/src/utils.rs"], [("compute_d / calc_y Newton solvers", "contracts/pair_stable/src/math.rs"), ("compute_swap", "contracts/pair_stable/src/utils.rs")], [], ["swap attributes, pool balances, LP supply"])
p("P05", "Concentrated pools follow their curve, dynamic fee, and LP value never falls",
  "The gross output of a concentrated-pool swap matches the pool's invariant at the current amplification, gamma and price scale; the fee rate moves between the mid and out fee according to how balanced the pool is after the trade; and at an unchanged price scale no swap, deposit or withdrawal lowers the invariant value backing one LP token beyond the documented numeric tolerance.",
  [H, I, C], "every legal parameter set, pool composition and history", UNIT + "curve agreement is only tested at a few points with one parameter set.",
  [PAIRS[3], f"{PCL}/utils.rs", f"{PCL}/math/math_decimal.rs", f"{PCL}/state.rs"], [("compute_swap", f"{PCL}/utils.rs"), ("newton_d / newton_y", f"{PCL}/math/math_decimal.rs"), ("PoolParams::fee", f"{PCL}/state.rs")], [], ["swap attributes, balances, Config query"])
p("P06", "Providing liquidity mints a fair share and locks the minimum liquidity",
  "A successful deposit takes exactly the stated amounts and mints the depositor's proportional share of the pool (never more; less only by rounding or the pool's imbalance fee), the first deposit permanently locks 1000 LP units in the pool, and LP supply can never fall below that afterwards. If the depositor states a minimum amount of LP tokens, the deposit succeeds only when at least that many are minted to the chosen receiver. A deposit that stakes its LP tokens right away mints the same amount and records it as the receiver's stake. A deposit that is not paid as stated, or lists other tokens than the pool's, is refused.",
  [H, I, C], "every pool type, state, deposit size and ratio, receiver and limit", UNIT + "minimum-LP protection is untested for several pool types, fairness is sampled at a few ratios.",
  PAIRS + ["contracts/pair_transmuter/src/contract.rs", "contracts/pair_concentrated/src/utils.rs"], [("calculate_shares / provide_liquidity", f) for f in PAIRS], [], ["LP supply, balances, provide attributes"])
p("P07", "Withdrawals return the proportional share and can always be made",
  "Burning LP tokens returns exactly the holder's proportional part of every reserve (never more; less only by rounding), burns exactly those LP tokens and touches nobody else's balance; a holder can always withdraw in every pool state. If the holder states minimum amounts, in whatever order, the withdrawal succeeds only when each of them is met; nothing but the pool's own LP token can be redeemed.",
  [H, I, C], "every pool type, pool state, LP amount and minimum", UNIT + "withdrawal after long mixed histories, down to the locked minimum, is never exercised.",
  PAIRS, [("withdraw_liquidity / get_share_in_assets", f) for f in PAIRS], [], ["ledger difference, LP supply"])
p("P08", "Trader and depositor price limits are enforced, in both directions",
  "A swap executes only if its outcome respects the caller's maximum spread relative to the belief price (or to the reported spread if none is given), with the documented defaults and hard caps when limits are missing or too loose, and a trade inside the limits is never refused because of them. Likewise deposits into constant-product and concentrated pools execute only within the caller's slippage tolerance.",
  [H, I, C], "every belief price, spread limit, slippage tolerance, decimals and pool state", UNIT + "limits are tested on either side at a few values only, never jointly with decimals and fees.",
  PAIRS + [f"{PCL}/utils.rs"], [("assert_max_spread", PAIRS[0]), ("assert_max_spread / assert_slippage_tolerance", f"{PCL}/utils.rs")], [], ["execution result against the simulated outcome"])
p("P09", "Quotes equal execution and pool queries tell the truth",
  "In an unchanged state the simulated outcome of a swap, deposit or withdrawal equals what execution then delivers (return, spread, commission, LP amount, refund), a simulation that succeeds is executable within the caller's limits, and the pool's reported reserves and share supply equal the real balances and supply.",
  [H, I, C], "every pool type, state and amount", UNIT + "quote and execution are compared at a few points.",
  PAIRS + ["contracts/pair_concentrated/src/queries.rs", "contracts/pair_transmuter/src/queries.rs"], [("query_simulation, SimulateProvide, SimulateWithdraw, Share, Pool", f) for f in PAIRS], [], ["queries immediately before and after each execution"])
p("P10", "Reverse quotes are sufficient and not wasteful",
  "Offering the amount a reverse simulation quotes for a desired output yields at least that output up to the pool's rounding unit, and a materially smaller offer does not, for every pool type including sale tax and fees.",
  [H, I, C], "every pool type, fee, tax, state and desired output", UNIT + "reverse simulation is compared with execution at a few points only.",
  PAIRS + ["contracts/pair_transmuter/src/queries.rs", f"{PCL}/utils.rs"], [("compute_offer_amount", f) for f in PAIRS], [], ["ReverseSimulation followed by Simulation/execution"])
p("P11", "Sale tax is exact, capped and controlled by its admin only",
  "In a sale-tax pool each taxed sale sends exactly rate times the offered amount (rounded down) to the token's tax recipient and trades only the rest, untaxed tokens are not taxed, no rate above 50 % or for a token outside the pair can be set, and only the tax administrator can change rates, recipients or hand over the role.",
  [H, I, C], "every tax configuration, its updates over time, and trade", UNIT + "tax interaction with updates, limits and rounding is sampled only at one rate.",
  [PAIRS[1], "contracts/pair_xyk_sale_tax/src/state.rs", "packages/astroport/src/pair_xyk_sale_tax.rs"], [("compute_swap tax deduction, update_config", PAIRS[1]), ("TaxConfigs::check", "packages/astroport/src/pair_xyk_sale_tax.rs")], [], ["ledger difference, UpdateConfig results, Config query"])
p("P12", "Cumulative prices are the time integral of the pool price",
  "Between any two moments a pool's cumulative prices grow by the pool price in force over each interval times its length, they never decrease, depend only on state before the interval's operations, and the query extrapolates to the current block without changing state.",
  [H, I, S], "every history and timing of operations, including several operations in one block and long idle periods", UNIT + "accumulation is checked once or twice with fixed times.",
  PAIRS + [f"{PCL}/utils.rs"], [("accumulate_prices", f) for f in PAIRS[:3]] + [("accumulate_prices", f"{PCL}/utils.rs")], [("price accumulators", "integral of price over time", "pair config")], ["CumulativePrices query after every operation"])
p("P13", "Trade observations report the recorded average price",
  "The observation query of an order-recording pool returns, for any time in the recorded range, a price lying within what trades around that time support, never a value outside all recorded trade prices, and fails for times before recording began; observations are committed with strictly increasing timestamps.",
  [H, I, S], "every trade history and queried age", UNIT + "observation interpolation is tested on synthetic buffers only.",
  ["packages/astroport/src/observation.rs", "packages/circular_buffer/src/lib.rs", "contracts/pair_stable/src/utils.rs", "contracts/pair_concentrated/src/utils.rs"], [("query_observation", "packages/astroport/src/observation.rs"), ("accumulate_swap_sizes", "contracts/pair_concentrated/src/utils.rs")], [], ["Observe query"])
p("P14", "Tracked pool balances can be recalled at any past block",
  "For a pool that tracks balances, asking for the balance at a past height returns the balance the pool held just before that block started as left by its last operation, for every height since tracking began, and nothing for earlier heights or if tracking is off.",
  [H, S], "every history of operations and block schedule, every queried height", UNIT + "history queries are tested with two or three snapshots.",
  PAIRS, [("BALANCES snapshot writes", f) for f in (PAIRS[0], PAIRS[1], PAIRS[3])], [("balance snapshots", "asset balance per height", "pair storage")], ["AssetBalanceAt query against recorded history"])
p("P15", "Curve parameters only change by their owner, within bounds, gradually",
  "Amplification and gamma move linearly from the current to the target value over an announced period of at least one day, by at most a factor of ten, can be frozen at their current value, and all pool parameters always stay within their documented limits; only the pool owner can change them.",
  [H, I, C], "every sequence of start/stop/update calls by any caller at any time", UNIT + "ramps are sampled at a few instants.",
  [PAIRS[2], PAIRS[3], f"{PCL}/state.rs"], [("start_changing_amp/stop_changing_amp/compute_current_amp", PAIRS[2]), ("promote_params/stop_promotion/get_amp_gamma/update_params", f"{PCL}/state.rs")], [("initial/future amp", "ramp end points", "pair config")], ["Config query over time"])
p("P16", "No sequence of trades or deposits alone creates a profit",
  "A participant who acts alone on an otherwise idle pool, in one block or many, and returns to holding no LP tokens, cannot end with more of one asset without having less of another; in particular no trading round trip is profitable.",
  [H, I, C], "every closed sequence of swaps, deposits and withdrawals", UNIT + "no test searches for profitable loops.",
  PAIRS, [("rounding directions in swap, provide and withdraw", f) for f in PAIRS], [], ["attacker's balances before and after a loop"])
p("P17", "Transmuter pools exchange one-to-one and stay fully backed",
  "A transmuter pool exchanges assets one-to-one by value after adjusting decimals, charges nothing, never pays more than was deposited, LP tokens always equal the pool's total normalized liquidity up to rounding dust in the pool's favour, and withdrawals (proportional or of chosen assets) burn LP exactly for what they pay.",
  [H, I, C], "every number of assets, decimals, amounts and histories", "The transmuter pair has no test that runs in the baseline.",
  ["contracts/pair_transmuter/src/contract.rs", "contracts/pair_transmuter/src/utils.rs", "contracts/pair_transmuter/src/queries.rs"], [("swap / provide / withdraw / normalize", "contracts/pair_transmuter/src/contract.rs")], [], ["balances, LP supply"])
p("P18", "The factory registers exactly one pair per asset set and keeps config bounds",
  "The factory holds at most one pair per set of assets regardless of order, creates pairs only of enabled types (permissioned types by the owner only), lists exactly the registered pairs, pools of deregistered pairs stop being listed but stay withdrawable, and fee settings never exceed 100 %. The reported configuration is exactly what the owner last set. A created pair can be upgraded by the factory owner only, and only the pair itself can mint its LP token.",
  [H, I, C], "every sequence of configuration, creation and deregistration by any caller, any asset naming", UNIT + "creation/deregistration sequences are short and with fixed assets.",
  ["contracts/factory/src/contract.rs", "contracts/factory/src/state.rs", "contracts/factory/src/querier.rs"], [("execute_create_pair / reply / deregister", "contracts/factory/src/contract.rs"), ("pair_key", "contracts/factory/src/state.rs")], [("pairs map", "asset set -> pair", "factory storage")], ["Pair/Pairs/FeeInfo queries"])
p("P20", "Multi-hop routes deliver at least the minimum, keep nothing, quote exactly",
  "A multi-hop swap pays the receiver exactly what its hops produce in sequence, fails as a whole if the result is below the stated minimum, leaves no funds behind in the router, and its forward quote equals the execution; routes that are empty, too long, disconnected or tie ends together illegally are refused.",
  [H, I, C], "every route over pools of all types, token kinds, limits", UNIT + "a few two-hop routes are tested.",
  ["contracts/router/src/contract.rs", "contracts/router/src/operations.rs"], [("execute_swap_operations / assert_minimum_receive / simulate", "contracts/router/src/contract.rs")], [], ["ledger difference around routed swaps"])
p("P21", "Concentrated pools re-peg only out of profit, along the price oracle",
  "The internal price oracle is the documented exponential moving average of trade prices and stays between past trade prices, the price scale moves only towards the oracle and only in an operation that trades, and no re-peg consumes more than half of the profit earned since the start, so an LP token's backing never falls below its initial value through re-pegging.",
  [H, I, C], "every trading history, timing and parameter set", UNIT + "re-pegging is followed over one scripted scenario.",
  [f"{PCL}/state.rs", f"{PCL}/utils.rs", PAIRS[3]], [("PoolState::update_price", f"{PCL}/state.rs")], [("price_scale, oracle_price, xcp_profit", "re-pegging state", f"{PCL}/state.rs")], ["OraclePrice, Config, LpPrice queries"])
INC = ["contracts/tokenomics/incentives/src/execute.rs", "contracts/tokenomics/incentives/src/state.rs", "contracts/tokenomics/incentives/src/utils.rs"]
p("P22", "A working pool keeps serving ordinary trades, deposits and questions",
  "Whatever happened to a constant-product, sale-tax, stable or concentrated pool before (parameter ramps and long silences included) and whichever of the admissible parameters it runs with, while it holds liquidity it accepts trades of ordinary size in both directions from anybody within the trader's stated limits, accepts deposits in its own proportion and lets the depositor leave again, and answers quotes and state questions.",
  [H, I, C, S], "every history of a pool, every trader, direction, ordinary amount, token kind and configuration", UNIT + "an operation that starts failing only in some states is not seen.",
  PAIRS + [f"{PCL}/state.rs", f"{PCL}/utils.rs", "packages/astroport/src/asset.rs"], [("swap / provide_liquidity", f) for f in PAIRS] + [("update_price loss guard", f"{PCL}/state.rs"), ("check_swap_parameters", "packages/astroport/src/asset.rs")], [("pool reserves", "liquidity", "bank / cw20 balances")], ["outcome of dry trades, deposits and queries after every operation"])
p("I01", "Staked LP tokens are in custody and always redeemable by their owner only",
  "The incentives contract always holds at least the sum of all recorded stakes of every LP token, each staker can withdraw exactly what they deposited at any time and nobody else can, deposits credit the named recipient, and the recorded pool total equals the sum of individual stakes.",
  [H, I, C, F], "every history of deposits, withdrawals, claims, configuration changes and failing reward transfers", UNIT + "custody is not followed through mixed histories.",
  INC, [("deposit / withdraw", INC[0]), ("PoolInfo / UserInfo update_and_sync_position", INC[1])], [("user position", "staked amount per user and pool", INC[1])], ["Deposit/PoolInfo/PoolStakers queries, bank balances"])
p("I02", "Rewards promised by external schedules are always fully funded",
  "At every moment the incentives contract holds at least the sum of all rewards still owed from external schedules (accrued to stakers, orphaned, and not yet emitted) for every reward token in addition to staked LP tokens, so claims never fail for lack of funds or pay one party with another's money.",
  [H, I, C, F], "every history of schedules, stakes, claims and removals", UNIT + "solvency over removal, re-scheduling and orphaning sequences is not tested.",
  INC, [("incentivize / deregister_reward / claim_orphaned_rewards / process_claim", INC[0])], [("reward indexes, orphaned", "accrual state", INC[1])], ["bank balances against a reference ledger"])
p("I03", "Rewards accrue pro rata to stake and time",
  "Every staker's claimable reward from each pool equals the emission during the time they were staked multiplied by their fraction of the pool's total stake at each moment, up to rounding down; what a still running reward emits while nobody is staked goes to the next stakers in the same proportion, and no sequence of partial deposits, withdrawals or claims changes the total.",
  [H, I, C, S], "every history and timing, including several operations in one block", UNIT + "accrual is compared with closed-form values in a few scripted cases.",
  INC, [("PoolInfo::update_rewards / accumulate / calculate_rewards", INC[1])], [], ["claim transfers, PendingRewards query against an exact reference accounting"])
p("I04", "Protocol emissions follow the configured rate and allocation points",
  "ASTRO emissions in total never exceed the configured tokens per second times elapsed time, are divided among active pools in proportion to their allocation points at each moment, and the total allocation always equals the sum over active pools after any sequence of setup, deactivation and blocking.",
  [H, I, C], "every sequence of pool set-ups, rate changes, blocks, deregistrations", UNIT + "allocation changes are tested one at a time.",
  INC + ["contracts/tokenomics/incentives/src/utils.rs"], [("setup_pools / deactivate_pool / update_blocked_pool_tokens / set_tokens_per_second", INC[0])], [("active pools, total alloc points", "emission weights", INC[1])], ["ActivePools, PoolInfo, Config queries; vesting claims"])
p("I05", "External reward schedules pay what was deposited, no more, no less",
  "Each external schedule emits exactly the deposited amount over its announced period, overlapping schedules add up, removing a reward returns exactly the unemitted and unearned remainder to the chosen receiver, rewards earned by nobody become claimable as orphaned exactly once, and finished rewards remain claimable.",
  [H, I, C, S], "every set of overlapping schedules, stakes and removal times", UNIT + "few schedules and removals in fixed order are tested.",
  INC, [("incentivize, remove_reward_from_pool, deregister_reward, claim_orphaned_rewards", INC[0]), ("RewardInfo::next_schedule", INC[1])], [], ["conservation per reward token"])
p("I06", "Incentive admission rules hold",
  "Only LP tokens of factory-registered pairs can be staked or incentivized, no pool carries more than the maximum number of external reward tokens, each new reward token costs exactly the configured fee paid to its receiver, blocked tokens can neither receive emissions nor be added as rewards, and schedules must respect the documented duration and rate limits.",
  [H, I, C], "every configuration and call sequence by any caller", UNIT + "each rule is tested once.",
  INC + ["packages/astroport/src/incentives.rs"], [("incentivize, InputSchedule::new / IncentivesSchedule::from_input", "packages/astroport/src/incentives.rs")], [], ["results of incentivize/deposit/setup calls"])
p("I07", "Pending reward quotes equal what a claim pays",
  "In an unchanged state the pending-reward query returns exactly the assets a claim in the same block transfers, claims for several pools pay the sum, and a second claim in the same block pays nothing. The reward state the contract reports before a claim is the one the claim records.",
  [H, I, S], "every reachable state", UNIT + "quote and payment are compared in a few cases.",
  INC + ["contracts/tokenomics/incentives/src/query.rs"], [("query_pending_rewards / claim_rewards", "contracts/tokenomics/incentives/src/query.rs")], [], ["PendingRewards query then ClaimRewards transfer"])
p("T01", "Vesting pays exactly the scheduled amount and stays funded",
  "At any time an account can claim exactly what its schedules have released so far minus what it already claimed, in any number of instalments and never more than the total deposited for it; the vesting contract always holds at least everything not yet claimed, and withdrawing from an active schedule takes only unvested funds.",
  [H, I, S], "every set of schedules, claim times and withdrawals", UNIT + "a few schedules and times are sampled.",
  ["contracts/tokenomics/vesting/src/contract.rs"], [("claim / compute_available_amount / withdraw_from_active_schedule", "contracts/tokenomics/vesting/src/contract.rs")], [("vesting info", "schedules and released amount per account", "vesting storage")], ["claims, AvailableAmount query, balances"])
p("T02", "The staking exchange rate never falls",
  "The amount of ASTRO backing one xASTRO never decreases through any sequence of stakes, unstakes and direct ASTRO transfers to the staking contract, entering and leaving immediately never yields a profit, and the first staker permanently locks the minimum.",
  [H, I], "every history of stakes and donations and every amount", "The staking contract has no test that runs in the baseline.",
  ["contracts/tokenomics/staking/src/contract.rs"], [("execute_enter / execute_leave", "contracts/tokenomics/staking/src/contract.rs")], [], ["ASTRO balance and xASTRO supply after every operation"])
p("T03", "Staking mints and burns exactly, and quotes are right",
  "Entering takes exactly the sent ASTRO and mints the proportional xASTRO to the chosen receiver, leaving burns exactly the sent xASTRO and returns the proportional ASTRO, other tokens are refused, the total-deposit and total-share queries equal balance and supply, and past xASTRO balances and supply are reported as they were.",
  [H, I], "every history and amount", "The staking contract has no test that runs in the baseline.",
  ["contracts/tokenomics/staking/src/contract.rs"], [("execute_enter / execute_leave / reply", "contracts/tokenomics/staking/src/contract.rs")], [], ["ledger difference, queries"])
p("T04", "Tracked token balances and supply can be recalled at any past moment",
  "For a tracked token the balance of any account and the total supply reported for a past height or time equal what they really were at the end of the last block before it, for every sequence of mints, burns and transfers including several per block, and only the token module can feed the tracker. Pools created with tracking keep such a history, by block height, for their LP token.",
  [H, I, S], "every history of bank events, block schedule and queried moment", "The tracker has no test that runs in the baseline.",
  ["contracts/periphery/tokenfactory_tracker/src/contract.rs", "contracts/periphery/tokenfactory_tracker/src/query.rs"], [("sudo BlockBeforeSend / track_balance", "contracts/periphery/tokenfactory_tracker/src/contract.rs")], [("balance and supply snapshots", "history", "tracker storage")], ["BalanceAt / TotalSupplyAt queries against recorded history"])
p("T05", "The snapshot token conserves supply and remembers balances",
  "In the snapshotting governance token the sum of balances always equals the supply, transfers, burns and allowance spending move exactly the stated amounts and never exceed allowance, balance or minting cap, only the minter mints, and for any past block the balance before that block's operations and the supply after them are reported as they really were.",
  [H, I, S], "every history of token operations and every queried block", UNIT + "historical queries are checked with a few operations.",
  ["contracts/tokenomics/xastro_token/src/contract.rs", "contracts/tokenomics/xastro_token/src/state.rs"], [("execute_* / capture_total_supply_history", "contracts/tokenomics/xastro_token/src/contract.rs")], [("balance snapshots", "history", "token storage")], ["Balance, BalanceAt, TotalSupplyAt queries"])
p("T06", "Collected fees reach only the configured recipients, in the configured shares",
  "The fee collector converts collected tokens and distributes the proceeds exactly between its configured recipients (governance share by percentage, second receiver, remainder to stakers), keeps nothing of what it distributes (apart from the not yet released part of what had accrued before rewards were enabled), never swaps beyond its spread limit and respects its cooldown; nobody but the owner can redirect it.",
  [H, I, C], "every mix of collected tokens, bridges, configuration and timing", UNIT + "fixed scenarios only.",
  ["contracts/tokenomics/maker/src/contract.rs", "contracts/tokenomics/maker/src/utils.rs"], [("collect / distribute", "contracts/tokenomics/maker/src/contract.rs")], [], ["ledger difference around collect"])
p("T07", "Token converters exchange exactly one-to-one and only old for new",
  "Converting gives exactly the same amount of the new token for the old one to the chosen receiver, no other token is accepted, and the old tokens collected can only be burned or sent home, never released to anyone.",
  [H, I, C], "every amount, receiver, token kind and caller", UNIT + "single conversions only.",
  ["contracts/periphery/astro_converter/src/contract.rs", "contracts/periphery/astro_converter_neutron/src/contract.rs"], [("convert / burn / transfer for burning", "contracts/periphery/astro_converter/src/contract.rs")], [], ["ledger difference"])
p("T08", "The staking pair swaps at the staking rate",
  "Swapping in the staking pool gives exactly what staking or unstaking the offered amount would give at that moment, to the chosen receiver, keeps nothing, and its quotes equal execution.",
  [H, I], "every staking state and amount", "The staking pair has no test that runs in the baseline.",
  ["contracts/pair_xastro/src/contract.rs", "contracts/pair_xastro/src/queries.rs"], [("swap / reply", "contracts/pair_xastro/src/contract.rs")], [], ["ledger difference, Simulation"])
p("T09", "The converter pair swaps old for new one-to-one and in one direction only",
  "Swapping in the conversion pool delivers exactly the offered amount of the new token for the old one, the reverse direction and liquidity operations are refused, and its quotes equal execution.",
  [H, I], "every amount and direction", UNIT + "few amounts.",
  ["contracts/pair_astro_converter/src/contract.rs"], [("swap", "contracts/pair_astro_converter/src/contract.rs")], [], ["ledger difference, Simulation"])
p("A01", "Privileged operations are refused to everyone but their role holders",
  "Every administrative or privileged operation of every contract is refused, without any effect on state or funds, when called by an account that does not hold the required role, whatever the state and arguments.",
  [H, I, C], "every privileged message of every contract, every caller", UNIT + "many privileged messages are never called by an unauthorized account in tests.",
  ["contracts/factory/src/contract.rs", "contracts/tokenomics/incentives/src/execute.rs", "contracts/tokenomics/vesting/src/contract.rs", "contracts/tokenomics/maker/src/contract.rs", "contracts/periphery/fee_granter/src/contract.rs"], [("sender checks in execute handlers", "contracts/*/src/contract.rs")], [], ["execution result and state digest"])
p("A02", "Ownership moves only by proposal and acceptance before expiry",
  "Ownership of a contract changes only when the current owner proposes a new owner and exactly that account accepts before the proposal expires; proposals can be withdrawn by the owner only, and until acceptance the old owner keeps all powers.",
  [H, I, S], "every sequence and timing of propose, drop and claim by any account, for every contract with this scheme", UNIT + "each contract tests one happy path.",
  ["packages/astroport/src/common.rs"], [("propose_new_owner / drop_ownership_proposal / claim_ownership", "packages/astroport/src/common.rs")], [("ownership proposal", "pending owner and expiry", "contract storage")], ["Config query and call results against a reference automaton"])
p("A03", "Whitelisted proxy executes only for its admins",
  "The whitelist account relays messages exactly as given, only for current admins, its admin list can be changed only by an admin while mutable and never after freezing, and its permission query tells the truth.",
  [H, I, C], "every sequence of calls by any account", "The whitelist has no test that runs in the baseline.",
  ["contracts/whitelist/src/contract.rs", "contracts/whitelist/src/state.rs"], [("execute_execute / freeze / update_admins", "contracts/whitelist/src/contract.rs")], [], ["relayed messages and call results"])
p("A04", "The coin registry reports exactly the registered decimals",
  "The coin registry returns, for each denomination, the decimals last registered for it and nothing after removal, accepts changes from its owner only (or backed by the sender's funds in the permissionless path with a consistent value), and lists exactly its entries across pages.",
  [H, I, C], "every sequence of additions and removals, any caller", UNIT + "few entries.",
  ["contracts/periphery/native_coin_registry/src/contract.rs"], [("add / register / remove", "contracts/periphery/native_coin_registry/src/contract.rs")], [], ["NativeToken(s) queries against a reference map"])
p("A05", "Fee grants are issued, tracked and revoked only by owner or admins",
  "Only the owner or an admin can create or revoke fee grants, each creation issues exactly one allowance of the stated amount and at most one per grantee, revocation removes it, funds transfer goes where the caller states, and the list of grants is exactly what was issued and not revoked.",
  [H, I, C], "every sequence of calls by any account", UNIT + "single grant only.",
  ["contracts/periphery/fee_granter/src/contract.rs"], [("create_grant / revoke_grant / transfer_coins / update_admins", "contracts/periphery/fee_granter/src/contract.rs")], [], ["emitted module messages and queries"])
p("A06", "The price oracle returns the true time-weighted average",
  "The periodic oracle's quote equals amount times the pool's time-weighted average price over the last completed period, it updates no more often than once per period, anybody can trigger but nobody can bias an update, and quotes for foreign assets fail.",
  [H, I, S], "every trading history, update schedule and amount", UNIT + "one or two updates on a scripted history.",
  ["contracts/periphery/oracle/src/contract.rs"], [("update / consult", "contracts/periphery/oracle/src/contract.rs")], [], ["Consult query against reserves recorded over time"])
p("A07", "The circular buffer returns exactly what was pushed last",
  "A persisted ring buffer of any capacity returns for every index the value most recently pushed there, refuses reads beyond what was pushed, and survives being reloaded at any point, for every sequence of pushes, commits and overwrites.",
  [H, I, C], "every capacity and sequence of operations", UNIT + "small scripted sequences.",
  ["packages/circular_buffer/src/lib.rs"], [("CircularBuffer / BufferManager", "packages/circular_buffer/src/lib.rs")], [], ["reads against a reference vector"])
p("A08", "Upgrades keep every balance, setting and history",
  "Upgrading a deployed contract from an older version it accepts keeps every balance, stake, schedule, setting, role, registered entry and recorded history: every question asked before the upgrade gets the same answer afterwards, and every operation that was possible stays possible with the same outcome. Upgrades from unknown contracts or unsupported versions are refused without effect.",
  [H, I, C], "every history of a deployed contract and every supported older version", UNIT + "the upgrade functions are run on almost empty contracts, several of them never.",
  ["contracts/factory/src/contract.rs", "contracts/factory/src/migration.rs", "contracts/tokenomics/maker/src/contract.rs", "contracts/tokenomics/maker/src/migration.rs", "contracts/periphery/oracle/src/contract.rs", "contracts/periphery/tokenfactory_tracker/src/contract.rs", "contracts/tokenomics/incentives/src/migrate.rs", "contracts/pair_xyk_sale_tax/src/contract.rs", "contracts/pair_concentrated/src/contract.rs"],
  [("migrate", "contracts/*/src/contract.rs"), ("migrate_pair_configs / add_tracker_config", "contracts/factory/src/migration.rs")], [("every stored item", "what the contract knows", "contract storage")], ["queries and dry operation outcomes before and after the upgrade"])
p("A09", "Settings change only as requested",
  "Whoever may change a setting changes exactly the named settings to exactly the given values: settings left out keep their value, every other setting of every contract stays untouched, values outside the documented limits are refused, a refused update changes nothing, and the configuration queries report what is in force.",
  [H, I, C], "every sequence of partial updates and deployments with admissible and inadmissible values", UNIT + "updates name all fields or one and are checked in that field only.",
  ["contracts/factory/src/contract.rs", "contracts/tokenomics/incentives/src/execute.rs", "contracts/tokenomics/maker/src/contract.rs", "contracts/pair/src/contract.rs", "contracts/pair_stable/src/contract.rs", "contracts/pair_concentrated/src/contract.rs", "contracts/pair_xyk_sale_tax/src/contract.rs", "contracts/tokenomics/xastro_token/src/contract.rs"],
  [("update_config handlers", "contracts/*/src/contract.rs")], [], ["configuration queries of all contracts before and after every update"])

BUILT = json.load(open(f"{V}/tools/built.json"))
TECH = "runtime monitoring: randomized hostile workloads on the real contracts in a deterministic chain simulator; "
def main():
    with open(f"{V}/properties.jsonl", "w") as f:
        for x in P:
            if x["id"] not in BUILT and not os.environ.get("ALLPROPS"):
                pass
            f.write(json.dumps({k: v for k, v in x.items() if not k.startswith("_")}) + "\n")
    m = dict(version=1, setup_cmd="bash setup.sh",
        hooks=dict(guard="none", enable="no hooks are needed: the monitors observe messages, events, queries and balances of the unmodified contracts", source_commits=[]),
        checks=[], not_applicable=[],
        notes="Every check rebuilds the contracts from /repo's working tree (check.sh) and runs them under online monitors; see DESIGN.md.")
    for x in P:
        if x["id"] in BUILT:
            b = BUILT[x["id"]]
            m["checks"].append(dict(property=x["id"], quick_cmd=f"bash check.sh {x['id']} quick", thorough_cmd=f"bash check.sh {x['id']} thorough",
                technique=TECH + b["oracle"], level="exploration", level_note=b["note"]))
        else:
            m["not_applicable"].append(dict(property=x["id"], reason="no check built yet"))
    json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
    open(f"{V}/MANIFEST.json", "a").write("\n")
main()
