#!/usr/bin/env python3
# Source of properties.jsonl: run `python3 tools/mkprops.py > properties.jsonl`.
import json,sys
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[state]
    if observe: d["anchors"]["observe_at"]=[observe]
    P.append(d)
H=["histories","inputs"]
p("D01","Delegated stake is fully backed and fully withdrawable",
 "At every point of every history the delegation escrow covers all current delegations plus all unclaimed delegation rewards, in every denomination. Delegating and redelegating move exactly the requested amount between the sender and the named validators and change nobody else's stake. From any reachable state, if all delegators undelegate everything they receive, after the unbonding time, exactly their current stake, and only rounding dust stays behind.",
 H,"every sequence of create/delegate/undelegate/redelegate/withdraw/slash/payout/time steps by any actors with any amounts",
 "Unit tests check fixed scenarios with two or three delegators and round amounts; backing must survive every interleaving of slashes, payouts and partial exits with odd amounts.",
 ["x/delegation/keeper/logic_delegation.go","x/delegation/keeper/logic_f1distribution.go","x/delegation/keeper/logic_unbonding.go","x/delegation/keeper/exported_functions.go"],
 [("F1 delegator create/remove","x/delegation/keeper/logic_f1distribution.go f1CreateDelegator/f1RemoveDelegator"),("delegate/undelegate/redelegate","x/delegation/keeper/msg_server_*.go")],
 "delegation queries and bank balances after every message and block")
p("D02","Delegation rewards are shared pro rata to stake and paid exactly once",
 "Every reward paid out for a validator accrues to that validator's delegators in proportion to their stake at that moment, per denomination, up to rounding dust, and no other action (other delegators joining, leaving, withdrawing, slashes) changes what a delegator has already earned. Earned rewards are paid to the delegator's own wallet exactly once, whenever the delegator withdraws, adds, removes or moves stake with that validator.",
 H,"every interleaving of payouts, slashes, joins, exits and withdrawals, and every amount",
 "Tests check a handful of fixed reward splits; the distribution algorithm keeps lazily summed per-period ratios whose correctness depends on the whole history.",
 ["x/delegation/keeper/logic_f1distribution.go","x/delegation/keeper/logic_delegation.go","x/delegation/keeper/exported_functions.go","x/delegation/keeper/msg_server_withdraw_rewards.go"],
 [("F1 periods","logic_f1distribution.go f1StartNewPeriod/f1WithdrawRewards/f1GetOutstandingRewards"),("withdraw on every stake change","logic_delegation.go performWithdrawal")],
 "outstanding-rewards query, wallet balances")
p("D03","Unbonding requests are paid once, on time and stay slashable",
 "A request to undelegate at most the sender's current stake is accepted, keeps the stake delegated (earning and slashable) until the unbonding time has passed, and is then executed exactly once in the first block at or after that time, in order, paying the smaller of the requested amount and what is left after slashes. Requests above the current stake are rejected and nothing is paid early.",
 H,"every sequence of overlapping undelegations, slashes, redelegations and block times, including exact boundary times",
 "Tests use one or two entries and round times; ordering, partial slashing between request and payout, and many overlapping entries are not sampled.",
 ["x/delegation/keeper/logic_unbonding.go","x/delegation/keeper/msg_server_undelegate.go","x/delegation/keeper/getters_undelegation.go"],
 [("unbonding queue","logic_unbonding.go ProcessDelegatorUnbondingQueue"),("request","msg_server_undelegate.go")],
 "unbonding queries, wallet balances at block boundaries")
p("D04","Redelegation is limited by spells and only targets active validators",
 "A redelegation succeeds only if the sender delegates at least the amount to the source, the target is a validator that participates in at least one pool, and fewer than the configured number of the sender's redelegations are still inside the cooldown window, at most one per block time. A successful one moves exactly the amount immediately, uses exactly one spell of the sender only, and each spell becomes available again once its own cooldown has elapsed.",
 H,"every sequence of redelegations, times (including exact cooldown boundaries), parameter values and targets",
 "Tests walk one fixed schedule of spells; boundary times and interleavings with several delegators, slashes and validators leaving pools are not covered.",
 ["x/delegation/keeper/logic_redelegation.go","x/delegation/keeper/msg_server_redelegate.go","x/delegation/keeper/getters_redelegation.go"],
 [("spells","logic_redelegation.go consumeRedelegationSpell"),("redelegate","msg_server_redelegate.go")])
p("S01","Only the registered protocol address can act for a validator in a pool",
 "A validator joins a pool only if the validator and the enabled pool exist, it is not already in the pool, and the protocol address is not its own address, not used by it in another pool and not used by anyone else in that pool. While it is a member exactly that protocol address, and no other account, can vote, submit, claim or skip for it in that pool, and after it leaves nobody can.",
 H,"every sequence of joins, leaves, kicks and protocol actions by every pairing of sender, validator and pool",
 "Tests try a few wrong senders; the guarantee is over all sender/validator/pool combinations in all membership histories.",
 ["x/stakers/keeper/msg_server_join_pool.go","x/stakers/keeper/exported_functions.go","x/stakers/keeper/getters_staker.go","x/bundles/keeper/logic_bundles.go"],
 [("authorisation","x/stakers/keeper/exported_functions.go AssertValaccountAuthorized"),("join checks","x/stakers/keeper/msg_server_join_pool.go")])
p("S02","Pools hold at most 50 validators and only strictly higher stake evicts",
 "A pool never has more than fifty members and its member count always equals its actual member list. When it is full a joining validator is accepted only if its total stake is strictly greater than the lowest member's, and then exactly one member with the lowest stake is removed; otherwise the join changes nothing.",
 H,"every stake distribution, order of joins, ties, delegations and leaves around a full pool",
 "Tests fill a pool once with a fixed stake ladder; ties, stake changes after joining and repeated evictions are not explored.",
 ["x/stakers/keeper/logic_stakers.go","x/stakers/keeper/msg_server_join_pool.go","x/stakers/keeper/getters_staker.go","x/stakers/types/types.go"],
 [("eviction","logic_stakers.go ensureFreeSlot/getLowestStaker")])
p("S03","Leaving a pool and changing commission take effect exactly after the notice time",
 "A member that announces leaving stays a full member until the leave time has passed and is removed in the first block at or after it, unless removed earlier; a commission change is applied in the first block at or after its change time, and a newer request replaces the pending one and restarts the wait. An announcement that was overtaken by an earlier removal never affects a later membership of the same validator.",
 H,"every interleaving of announcements, kicks, rejoin, pool shutdown, commission requests and block times including boundaries",
 "Tests check one announcement at a time; the queues are shared by all validators and interact with kicks and rejoins.",
 ["x/stakers/keeper/logic_leave.go","x/stakers/keeper/logic_commission.go","x/stakers/keeper/logic_queue.go","x/stakers/keeper/getters_staker.go"],
 [("queues","logic_queue.go processQueue"),("leave","logic_leave.go"),("commission","logic_commission.go")])
p("S04","Commission rewards are backed, and only their owner can claim them",
 "Accrued commission rewards of all validators are always fully backed by the escrow in every denomination. A claim pays exactly the requested coins to the claiming validator and reduces its accrued rewards by the same coins, any claim exceeding the accrued amount in some denomination is rejected, and nothing else reduces accrued rewards.",
 H,"every multi-denomination history of bundle rewards and claims, with amounts below, at and above the accrued amount",
 "Tests claim once or twice in fixed denominations.",
 ["x/stakers/keeper/msg_server_claim_commission_rewards.go","x/stakers/keeper/logic_stakers.go"],
 [("claim","msg_server_claim_commission_rewards.go"),("accrual","logic_stakers.go IncreaseStakerCommissionRewards")])
p("B01","The bundle archive of a pool is contiguous, append-only and faithful",
 "For every pool the finalized bundles have consecutive ids from zero and adjoining index ranges, the pool's bundle count, current index, current key and summary always match the last one, and a finalized bundle never changes or disappears. A bundle is finalized only with a valid quorum and records exactly what its uploader proposed plus the valid and total vote power at that moment.",
 H,"every history of proposals, votes, skips, timeouts, drops, disables and upgrades over several pools",
 "Tests finalize a few bundles on one path; the archive is extended by three different code paths (submit, skip, timeout) under all interleavings.",
 ["x/bundles/keeper/logic_bundles.go","x/bundles/keeper/getters_bundles.go","x/pool/keeper/logic_pool.go"],
 [("finalisation","logic_bundles.go finalizeCurrentBundleProposal"),("pool pointers","x/pool/keeper/logic_pool.go IncrementBundleInformation")])
p("B02","Bundle outcomes follow the stake-weighted quorum and each member votes once",
 "A proposal is valid only if strictly more than half of the pool's total stake voted valid, invalid if it is not valid and at least half voted invalid, and otherwise (also with zero total stake) undecided, counting each current member with its current stake once and no former member. A member votes at most once valid or invalid on the current proposal, an abstain may later be changed to valid or invalid, the uploader counts as voting valid, and votes for anything but the current proposal are rejected.",
 H,"every stake distribution (ties, zeros, stake moving after the vote), vote order, vote value and membership change during the vote",
 "Tests use equal stakes and few voters; exact ties and stake that moves between vote and tally are not sampled.",
 ["x/bundles/keeper/logic_bundles.go","x/bundles/keeper/msg_server_vote_bundle_proposal.go"],
 [("tally","logic_bundles.go GetVoteDistribution/tallyBundleProposal"),("vote","msg_server_vote_bundle_proposal.go")])
p("B03","Exactly the wrong voters are slashed, by the set fraction, to the treasury",
 "When a proposal is found valid exactly those who voted invalid are slashed with the vote fraction; when found invalid exactly those who voted valid are, the uploader with the upload fraction; and a member reaching the maximum points is slashed with the timeout fraction; each is removed from that pool. A slash takes the same fraction from every delegation of that validator, sends exactly that amount to the community pool, and nobody else loses stake in any protocol action.",
 H,"every proposal outcome, vote mix, stake layout, slash fraction and concurrent membership or delegation change",
 "Tests check fixed outcomes with equal stakes and default fractions.",
 ["x/bundles/keeper/logic_bundles.go","x/delegation/keeper/exported_functions.go","x/delegation/keeper/logic_f1distribution.go","x/delegation/keeper/getters_params.go"],
 [("who","logic_bundles.go tallyBundleProposal/addPoint"),("how much","x/delegation/keeper/logic_f1distribution.go f1Slash")])
p("B04","Bundle rewards are split completely and exactly",
 "For every finalized bundle the coins charged from funders plus the inflation payout equal, per denomination, the network fee to the treasury plus the uploader's storage and commission rewards plus the delegators' reward, with nothing created, lost or left behind. The fee is the configured share of the total; storage reward is the configured cost for the bundle's size spread equally by value over the coins and capped by what is left; commission is the uploader's current rate of the remainder, and only an uploader without any delegation receives the delegators' part itself.",
 H,"every coin mix, weight, decimals, storage cost, data size, fee, commission and funding level",
 "Tests use a few hand-computed payouts; the arithmetic has many rounding and capping branches per denomination.",
 ["x/bundles/keeper/logic_bundles.go","x/pool/keeper/logic_pool.go","x/funders/keeper/logic_funders.go"],
 [("split","logic_bundles.go calculatePayouts"),("inflation payout","x/pool/keeper/logic_pool.go ChargeInflationPool")])
p("B05","The next uploader is eligible and chosen in proportion to stake",
 "Whenever an uploader is selected it is a current pool member with stake; after a valid bundle it is one of the valid voters, and after a skip it is not the member who skipped, whenever such a candidate exists. While stakes and membership stay constant each candidate is selected with a frequency proportional to its stake, up to a small constant number of rounds (where rounds exclude somebody, as long as no member dominates the others).",
 H,"every stake layout, exclusion set, prior selection history and membership change",
 "Tests run a few hundred rounds of fixed sets; exclusion combined with accumulated progress is not explored.",
 ["x/bundles/keeper/logic_round_robin.go","x/bundles/keeper/logic_bundles.go"],
 [("selection","logic_round_robin.go NextProposer"),("call sites","logic_bundles.go chooseNextUploader/chooseNextUploaderFromList")])
p("B06","Points count consecutive missed duties and timeouts move the round on",
 "Each time a proposal is evaluated every current member who cast no vote on it gets one point, an uploader who lets the upload timeout pass gets one, and voting, submitting or skipping resets the member's points to zero; nobody else's points change, and at the configured maximum the member is removed. An undecided proposal is dropped in the first block once the upload interval has passed, and if the designated uploader stays silent past the upload timeout the round is evaluated or restarted with a new uploader in that block, never earlier.",
 H,"every schedule of votes, silence, skips, block times (including exact interval and timeout boundaries) over several pools",
 "Tests hit the timeout in a few scripted rounds with one pool.",
 ["x/bundles/keeper/logic_end_block_handle_upload_timeout.go","x/bundles/keeper/logic_bundles.go","x/bundles/keeper/msg_server_skip_uploader_role.go"],
 [("timeouts","logic_end_block_handle_upload_timeout.go"),("points","logic_bundles.go handleNonVoters/addPoint/resetPoints")])
p("B07","Protocol actions are accepted exactly when the pool runs and the sender is due",
 "Submitting, skipping, voting and claiming succeed only while the pool is enabled, not upgrading, short of its end key, at or above its minimum stake, and no member exceeds the maximum voting power. Submitting and skipping further require being the designated uploader, after the upload interval, at the right index, and submitting a non-empty bundle within the size limit; claiming requires that nobody is designated. The can-validate, can-vote and can-propose queries answer yes exactly when the corresponding transaction's preconditions hold.",
 H,"every pool configuration and state, sender, time boundary and message argument",
 "Tests check each gate once in isolation and the queries on a few states.",
 ["x/bundles/keeper/logic_bundles.go","x/bundles/keeper/msg_server_submit_bundle_proposal.go","x/bundles/keeper/msg_server_claim_uploader_role.go","x/query/keeper/grpc_query_can_propose.go","x/query/keeper/grpc_query_can_vote.go","x/query/keeper/grpc_query_can_validate.go"],
 [("gates","logic_bundles.go AssertPoolCanRun/AssertCanVote/AssertCanPropose"),("queries","x/query/keeper/grpc_query_can_*.go")])
p("P01","The protocol share of inflation goes to running pools by weight, completely",
 "In every block the configured protocol share of the minted coins left after the team's part (as the team module reports it when the split is made) is distributed to exactly the pools that can currently run, in proportion to their inflation weights up to rounding, and the parts add up to that share exactly; pools that cannot run receive nothing. If no pool can run or all weights are zero the whole amount goes to the chain's stakers, and the remainder of the mint always goes there.",
 ["histories","configurations"],"every set of pools, weights, states and mint amounts",
 "Tests use weights that divide evenly or accept rounding; remainders over pools that cannot run are not examined.",
 ["x/bundles/abci.go","app/app_config.go"],
 [("split","x/bundles/abci.go SplitInflation"),("order","app/app_config.go beginBlockers")])
p("P02","Pool lifecycle changes do exactly what governance ordered",
 "Creating, updating, disabling and enabling a pool change exactly the named fields of the named pool; disabling also removes all its members, drops its open proposal and sends its inflation balance to the treasury, and a disabled pool can be neither joined nor run until enabled. A runtime upgrade is planned for exactly the pools of that runtime without a pending plan, halts them from its time until its duration has passed, installs the version and binaries at its time exactly once, and can be cancelled, leaving other pools untouched.",
 H,"every sequence of lifecycle messages, upgrade times and durations (past, now, future, overlapping) over several pools",
 "Tests exercise one pool and one plan at a time.",
 ["x/pool/keeper/msg_server_create_pool.go","x/pool/keeper/msg_server_update_pool.go","x/pool/keeper/msg_server_disable_pool.go","x/pool/keeper/msg_server_enable_pool.go","x/pool/keeper/msg_server_schedule_runtime_upgrade.go","x/pool/keeper/msg_server_cancel_runtime_upgrade.go","x/pool/keeper/logic_end_block_handle_pool_upgrades.go"],
 [("upgrades","logic_end_block_handle_pool_upgrades.go"),("disable","msg_server_disable_pool.go")])
p("F01","Funds of a funder are conserved: deposited = remaining + charged + returned",
 "For every funder and pool and denomination, deposits equal what is still available plus what was charged for bundles plus what was returned to the funder, and the escrow always covers all remaining funds. Each finalized bundle charges every active funder exactly the smaller of its amount per bundle and its remaining amount in each whitelisted coin, and nothing is charged without a finalized bundle.",
 H,"every sequence of fund, defund, eviction, bundle and whitelist change in several denominations",
 "Tests follow one or two funders for a few bundles.",
 ["x/funders/keeper/logic_funders.go","x/funders/keeper/msg_server_fund_pool.go","x/funders/keeper/msg_server_defund_pool.go","x/funders/types/funders.go"],
 [("charge","logic_funders.go ChargeFundersOfPool"),("deposit/return","msg_server_fund_pool.go, msg_server_defund_pool.go")])
p("F02","Active funders are those with funds left, at most 50, lowest value evicted",
 "Every funder with funds left in a pool is listed as active for it and is delisted once they are used up or returned, and never more than fifty are listed. When all slots are taken a new funder enters only if its funding is worth at least as much as the lowest-valued one, and then exactly that lowest-valued funder is removed with all its remaining funds returned to it.",
 H,"every sequence of fundings, top-ups, defunds, charges and evictions with ties and several denominations",
 "Tests fill the list once with one denomination.",
 ["x/funders/keeper/logic_funders.go","x/funders/types/funders.go"],
 [("slots","logic_funders.go ensureFreeSlot/GetLowestFunding"),("active list","x/funders/types/funders.go SetActive/SetInactive")])
p("F03","Fundings always meet the whitelist and minimum rules when they are changed",
 "Funding or partially defunding a pool succeeds only if afterwards every remaining coin is whitelisted and has an amount per bundle, meets its minimum amount and minimum amount per bundle, and covers the minimum multiple of bundles; a request that would break this changes nothing. Defunding returns at most what is left of each requested coin and never touches other coins.",
 H,"every whitelist, minimum, multiple, coin mix and existing funding",
 "Tests check each rule once with fixed numbers.",
 ["x/funders/keeper/logic_funders.go","x/funders/keeper/msg_server_fund_pool.go","x/funders/keeper/msg_server_defund_pool.go"],
 [("rules","logic_funders.go ensureParamsCompatibility")])
p("T01","Team vesting follows the published schedule at every second",
 "For every team account and every time, nothing is vested before the cliff, afterwards the vested amount grows linearly to the full allocation at the end of vesting, and it freezes at a clawback; unlocked amounts follow the unlock schedule and never exceed what is vested. Vested and unlocked amounts never decrease over time, and the claimable amount is always unlocked minus claimed.",
 ["inputs","histories"],"every allocation, commencement, clawback and query time (including before genesis and exact boundaries)",
 "Tests sample a dozen dates for one allocation.",
 ["x/team/keeper/logic_team.go","x/team/types/types.go"],
 [("schedule","x/team/keeper/logic_team.go")])
p("T02","Team allocations never exceed the budget and are paid only on authority order",
 "The total of issued team allocations (counting clawed-back accounts with what they keep) never exceeds the team's fixed allocation, and the team escrow always covers everything still owed. Accounts are created, clawed back and paid only by the two team authorities; a claim pays exactly the requested amount to the named recipient, at most what is currently unlocked or earned and not yet claimed, and authority rewards only on the foundation's order.",
 H,"every sequence of create/clawback/claim messages by any sender with any amount, id and time",
 "Tests use single accounts and valid amounts; overflow amounts, changed clawbacks and interleaved accounts are not covered.",
 ["x/team/keeper/msg_server_claim_unlocked.go","x/team/keeper/msg_server_clawback.go","x/team/keeper/msg_server_create_team_vesting_account.go","x/team/keeper/msg_server_claim_account_rewards.go","x/team/keeper/msg_server_claim_authority_rewards.go","x/team/keeper/logic_team.go"],
 [("budget","logic_team.go GetIssuedTeamAllocation"),("claims","msg_server_claim_*.go")])
p("T03","The team's inflation share is distributed completely and by vested stake",
 "In every block the team escrow receives exactly its proportional share of the minted coins, which is then credited completely: each account in proportion to its vested and unclaimed tokens relative to the whole team allocation, rounded down, and the rest to the authority. Credited rewards only decrease by being claimed and are always backed by the escrow.",
 ["histories","inputs"],"every set of accounts, vesting states, claims and block times",
 "Tests use one or two accounts at a few dates.",
 ["x/team/abci.go","x/team/keeper/logic_team.go"],
 [("distribution","x/team/abci.go DistributeTeamInflation")])
p("G01","Every transaction pays the configured fees, refunds and burns exactly",
 "After genesis a transaction is accepted only if its fee covers gas times the consensus minimum gas price, configured message types consume their extra gas, a successful single-message transaction of a refundable type gets exactly the configured fraction of its fee back to whoever paid it, and at block end exactly the configured share of the collected fees is burned from supply. No other account is charged or credited by this, for every combination of parameters, granter and message list.",
 ["inputs","configurations","histories"],"every fee, gas limit, gas price, message list, fee granter and parameter set, successful or failing transactions",
 "Tests check each decorator in isolation with fixed values.",
 ["x/global/fee.go","x/global/refund.go","x/global/gas.go","x/global/abci.go","app/ante.go","app/post.go"],
 [("min price","x/global fee decorator"),("adjustments","x/global gas adjustment decorator"),("refund","x/global post handler"),("burn","x/global end block")])
p("G02","Only governance changes parameters and pools, and updates merge exactly",
 "Every administrative message (parameter updates of all modules and pool management) is rejected without effect unless sent by the governance authority. An accepted parameter update changes exactly the fields named in its payload to the given values, keeps all others, and never leaves a module with parameters that fail their own validation.",
 ["inputs","histories"],"every sender and every payload (partial, full, malformed, out of range)",
 "Tests update a few fields with valid values from one wrong sender.",
 ["x/bundles/keeper/msg_server_update_params.go","x/delegation/keeper/msg_server_update_params.go","x/funders/keeper/msg_server_update_params.go","x/global/keeper/msg_server_update_params.go","x/pool/keeper/msg_server_update_params.go","x/stakers/keeper/msg_server_update_params.go","x/pool/keeper/msg_server_create_pool.go"],
 [("authority checks","x/*/keeper/msg_server_update_params.go, x/pool/keeper/msg_server_*.go")])
p("X01","Exported state re-imports to the same chain",
 "For every reachable state, exporting all KYVE modules and importing the export into a fresh chain succeeds, passes genesis validation, and exporting again yields the same state. The re-imported chain answers queries and processes the same following messages and blocks with the same results as the original.",
 H,"every reachable state and every continuation",
 "There is no export/import test; it depends on every store and index being exported or rebuilt.",
 ["x/bundles/genesis.go","x/delegation/genesis.go","x/funders/genesis.go","x/pool/genesis.go","x/stakers/genesis.go","x/team/genesis.go","x/global/genesis.go"],
 [("init/export","x/*/genesis.go"),("validation","x/*/types/genesis.go")])
p("X02","Execution is deterministic and survives a node restart at any block",
 "Two nodes fed the same blocks always reach the same application hash and the same transaction results at every height. A node that is stopped at any point and restarted from disk continues, from the first block it processes after the restart, with the same hashes, results and query answers as a node that was never stopped.",
 ["schedules","crash_points","histories"],"every block sequence and every restart height",
 "Tests run a single in-memory node; map iteration order, in-memory indexes and restart recovery are never compared.",
 ["x/bundles/keeper/keeper.go","x/delegation/keeper/keeper.go","x/delegation/keeper/getters_index_stakers.go","x/bundles/keeper/logic_round_robin.go","app/app.go"],
 [("memory index rebuild","InitMemStore in x/bundles and x/delegation"),("ordered iteration","logic_round_robin.go GetRoundRobinProgress")])
p("X03","No transaction or block can halt the chain",
 "No sequence of user transactions, governance-valid configuration and block times makes begin-block or end-block processing panic or return an error, or schedules the emergency halt. Malformed or extreme arguments make a transaction fail at worst for its sender.",
 H,"every message with extreme, zero, duplicate or malformed arguments in every state, and every time step",
 "Tests use well-formed arguments; numeric extremes reach block processing only through multi-step histories.",
 ["util/logic_error.go","x/bundles/keeper/logic_end_block_handle_upload_timeout.go","x/bundles/abci.go","x/team/abci.go","x/global/abci.go","x/delegation/keeper/logic_unbonding.go"],
 [("emergency halt","util/logic_error.go PanicHalt"),("block hooks","x/*/module.go BeginBlock/EndBlock")])
p("X04","Failed transactions change nothing and no transaction takes others' assets",
 "A message that fails leaves all module state and balances unchanged. A successful user message never decreases any other user's wallet, stake, funds or accrued rewards except through the protocol's defined slashing, eviction and funder charging, and total supply changes only by minting and burning at block boundaries.",
 H,"every message by every sender in every state",
 "Tests check the sender's effects on happy paths.",
 ["x/bundles/keeper","x/delegation/keeper","x/funders/keeper","x/stakers/keeper","x/pool/keeper","x/team/keeper"],
 [("message servers","x/*/keeper/msg_server_*.go")])
p("X05","Queries report the true state completely and page without gaps",
 "For every reachable state the query endpoints agree with the stored state: validator lists and their stake ordering, active status, pool membership and counts, delegators by validator and validators by delegator, unbondings, redelegation spells, fundings by funder and pool, account assets, vote status and finalized bundles by id, index and range. Walking any list by pages of any size, by offset and, where the list supports it, by key or backwards, returns every entry exactly once and in order.",
 ["histories","inputs"],"every reachable state, every filter and every page size, key, offset and direction",
 "Tests query a few small states with default pagination.",
 ["x/query/keeper","x/bundles/keeper/getters_bundles.go","x/delegation/keeper/getters_index_stakers.go","x/delegation/keeper/getters_delegator.go","x/funders/keeper/getters_funding.go","x/stakers/keeper/getters_staker.go"],
 [("queries","x/query/keeper/grpc_*.go"),("indexes","x/delegation/keeper/getters_index_stakers.go")])
p("E01","Events report exactly what happened",
 "Every successful message and every block emits, for each of its effects, the typed event of the KYVE module concerned, once, with the true values in every field: proposals and votes; the outcome of each bundle with its votes, payouts and the way they were split; claimed and skipped uploader roles; points given and reset; slashes with their amounts; validators created, edited, joining and leaving pools, changing commissions; delegations, started and executed undelegations, redelegations; rewards and commissions paid; fundings, refunds (also of an evicted funder) and pools out of funds; pools created, changed, disabled, enabled and upgrades scheduled or cancelled with the pools affected; parameter updates with old and new parameters; team accounts and payments. No event reports something that did not happen.",
 H,"every message, block and combination of effects within one",
 "Tests hardly look at events at all; indexers, nodes and wallets read the chain's history from them only.",
 ["x/bundles/keeper","x/delegation/keeper","x/funders/keeper","x/stakers/keeper","x/pool/keeper","x/team/keeper","x/global/keeper"],
 [("emission","every EmitTypedEvent in x/"),("bundle outcomes","x/bundles/keeper/logic_bundles.go finalizeCurrentBundleProposal/dropCurrentBundleProposal")])
p("U01","The v1.5 upgrade carries every record and asset over unchanged",
 "For every state of the previous version (v1.4), the upgrade handler succeeds and afterwards every funding, delegation reward entry, outstanding reward, commission reward, validator, pool and parameter describes what it did before, amounts becoming the same amounts of the native coin; nothing else in any store is added, lost or altered. Open proposals stay the same, and each create-pool order in them still orders the same pool. Only what the upgrade is there to introduce differs: the coin whitelist with the old minimums for the native coin, the storage costs, the voting power limit, inflation weight one for every pool, expedited proposals, the missing texts of listed old proposals, and a runtime upgrade from the upgrade time for exactly the pools of the three upgraded runtimes without a pending plan.",
 ["histories","inputs"],"every reachable state restricted to what v1.4 can hold, every amount, text and set of proposals in it",
 "No test runs the upgrade at all; it rewrites every record of five modules once, on the live chain, so any state it mishandles is lost or halts the chain.",
 ["app/upgrades/v1_5/upgrade.go","app/upgrades/v1_5/v1_4_types","x/stakers/keeper/getters_staker.go"],
 [("store migrations","app/upgrades/v1_5/upgrade.go migrateFundersModule/migrateDelegationModule/migrateStakersModule/migrateBundlesModule/migratePoolModule"),("proposals","app/upgrades/v1_5/upgrade.go migrateOldGovProposals"),("runtimes","app/upgrades/v1_5/upgrade.go upgradeRuntimes")],
 "the stores of all modules before and after the upgrade")
p("X06","Protocol stake votes in governance with exactly its active amount",
 "In every state the stake counted by governance for protocol validators is exactly the delegation of validators that participate in at least one pool, and a delegator's weight is exactly its current delegation to such validators. A validator's vote counts for its delegations whose owners did not vote themselves, a delegator's own vote overrides it, and no stake is counted twice.",
 H,"every stake layout, pool membership and voter subset",
 "Tests do not run a tally with protocol stakers under changing membership.",
 ["x/stakers/keeper/exported_functions.go","x/stakers/keeper/getters_staker.go"],
 [("voting power","exported_functions.go TotalBondedTokens/GetActiveValidators/GetDelegations")])
for d in P: print(json.dumps(d,ensure_ascii=True))
