From 88f8741454792c49328a81c157601db86554497d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:06 +0000
Subject: [PATCH 01/26] fix: x/bundles: never select an excluded validator in
 the round-robin

---
 x/bundles/keeper/logic_round_robin.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x/bundles/keeper/logic_round_robin.go b/x/bundles/keeper/logic_round_robin.go
index 56366f7..924bed1 100644
--- a/x/bundles/keeper/logic_round_robin.go
+++ b/x/bundles/keeper/logic_round_robin.go
@@ -246,10 +246,10 @@ func (vs *RoundRobinValidatorSet) NextProposer(excludedAddresses ...string) stri
 		}
 	}
 
-	currentMaxValidator := vs.Validators[0].Address
+	currentMaxValidator := ""
 	for _, validator := range vs.Validators {
 		if !mapExcludedAddresses[validator.Address] {
-			if vs.Progress[validator.Address] > vs.Progress[currentMaxValidator] {
+			if currentMaxValidator == "" || vs.Progress[validator.Address] > vs.Progress[currentMaxValidator] {
 				currentMaxValidator = validator.Address
 			}
 		}
-- 
2.43.0


From 81193898068ca6db712bb7e564e9f9df71001af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:06 +0000
Subject: [PATCH 02/26] fix: x/bundles: do not punish non-voters when there is
 no bundle to vote on

---
 x/bundles/keeper/msg_server_skip_uploader_role.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/x/bundles/keeper/msg_server_skip_uploader_role.go b/x/bundles/keeper/msg_server_skip_uploader_role.go
index bc5d41e..f20c519 100644
--- a/x/bundles/keeper/msg_server_skip_uploader_role.go
+++ b/x/bundles/keeper/msg_server_skip_uploader_role.go
@@ -20,10 +20,15 @@ func (k msgServer) SkipUploaderRole(goCtx context.Context, msg *types.MsgSkipUpl
 	// reset points of uploader as node has proven to be active
 	k.resetPoints(ctx, msg.PoolId, msg.Staker)
 
-	// Previous round contains a bundle which needs to be validated now
-	result, err := k.tallyBundleProposal(ctx, bundleProposal, msg.PoolId)
-	if err != nil {
-		return nil, err
+	// If the previous round contains a bundle it needs to be validated now. Without a bundle
+	// there is nothing to vote on and therefore nobody to punish for not having voted
+	result := types.TallyResult{Status: types.TallyResultNoQuorum}
+	if bundleProposal.StorageId != "" {
+		var err error
+		result, err = k.tallyBundleProposal(ctx, bundleProposal, msg.PoolId)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	// Get next uploader, except the one who skipped
-- 
2.43.0


From 6959519deca5cd17cdedada1dab0adb51788f434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:06 +0000
Subject: [PATCH 03/26] fix: x/bundles: avoid negative storage costs for
 bundles with a huge data size

---
 x/bundles/keeper/logic_bundles.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/bundles/keeper/logic_bundles.go b/x/bundles/keeper/logic_bundles.go
index a9b30c7..a11a01b 100644
--- a/x/bundles/keeper/logic_bundles.go
+++ b/x/bundles/keeper/logic_bundles.go
@@ -280,7 +280,7 @@ func (k Keeper) calculatePayouts(ctx sdk.Context, poolId uint64, totalPayout sdk
 	wantedStorageRewards := sdk.NewCoins()
 	// storageCostPerCoin is the storage cost in $USD for each coin. This implies that each coin contributes the same
 	// amount of value to the storage rewards
-	storageCostPerCoin := k.GetStorageCost(ctx, bundleProposal.StorageProviderId).MulInt64(int64(bundleProposal.DataSize)).QuoInt64(int64(totalPayout.Len()))
+	storageCostPerCoin := k.GetStorageCost(ctx, bundleProposal.StorageProviderId).MulInt(math.NewIntFromUint64(bundleProposal.DataSize)).QuoInt64(int64(totalPayout.Len()))
 	for _, coin := range totalPayout {
 		weight := whitelist[coin.Denom].CoinWeight
 		if weight.IsZero() {
-- 
2.43.0


From 84fcd7e10441a5a0ca096a0c72d30cdb4f38a601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:06 +0000
Subject: [PATCH 04/26] fix: x/stakers: drop a pending leave when the staker is
 removed from the pool

---
 x/stakers/keeper/getters_staker.go |  4 ++++
 x/stakers/keeper/logic_leave.go    | 13 +++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/x/stakers/keeper/getters_staker.go b/x/stakers/keeper/getters_staker.go
index eeee362..103c062 100644
--- a/x/stakers/keeper/getters_staker.go
+++ b/x/stakers/keeper/getters_staker.go
@@ -84,6 +84,10 @@ func (k Keeper) RemoveValaccountFromPool(ctx sdk.Context, poolId uint64, stakerA
 		k.removeValaccount(ctx, valaccount)
 		k.subtractOneFromCount(ctx, poolId)
 		k.removeActiveStaker(ctx, stakerAddress)
+
+		// an ordered leave is obsolete now, otherwise it would
+		// remove the staker again if he rejoins in the meantime
+		k.cancelLeavePool(ctx, stakerAddress, poolId)
 	}
 }
 
diff --git a/x/stakers/keeper/logic_leave.go b/x/stakers/keeper/logic_leave.go
index 108f5f6..711c7fe 100644
--- a/x/stakers/keeper/logic_leave.go
+++ b/x/stakers/keeper/logic_leave.go
@@ -27,6 +27,19 @@ func (k Keeper) orderLeavePool(ctx sdk.Context, staker string, poolId uint64) er
 	return nil
 }
 
+// cancelLeavePool removes the leave pool entry of a staker in a given pool. If there is none nothing happens.
+func (k Keeper) cancelLeavePool(ctx sdk.Context, staker string, poolId uint64) {
+	if !k.DoesLeavePoolEntryExistByIndex2(ctx, staker, poolId) {
+		return
+	}
+
+	for _, entry := range k.GetAllLeavePoolEntries(ctx) {
+		if entry.Staker == staker && entry.PoolId == poolId {
+			k.RemoveLeavePoolEntry(ctx, &entry)
+		}
+	}
+}
+
 // ProcessLeavePoolQueue ...
 func (k Keeper) ProcessLeavePoolQueue(ctx sdk.Context) {
 	k.processQueue(ctx, types.QUEUE_IDENTIFIER_LEAVE, func(index uint64) bool {
-- 
2.43.0


From 6a61af723c9c2ce218e8ffa2e25c9bfa2c7a28d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:06 +0000
Subject: [PATCH 05/26] fix: x/delegation: reset the total delegation after the
 last delegator left

---
 x/delegation/keeper/logic_f1distribution.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x/delegation/keeper/logic_f1distribution.go b/x/delegation/keeper/logic_f1distribution.go
index 053b78e..5dc4a88 100644
--- a/x/delegation/keeper/logic_f1distribution.go
+++ b/x/delegation/keeper/logic_f1distribution.go
@@ -140,6 +140,9 @@ func (k Keeper) f1RemoveDelegator(ctx sdk.Context, stakerAddress string, delegat
 
 	// Final cleanup
 	if delegationData.DelegatorCount == 0 {
+		// Due to rounding in slashes the total can be higher than the sum of all delegations.
+		// Since nobody is left there must not remain anything which could receive rewards.
+		delegationData.TotalDelegation = 0
 		k.RemoveDelegationEntry(ctx, stakerAddress, delegationData.LatestIndexK)
 	}
 	k.SetDelegationData(ctx, delegationData)
-- 
2.43.0


From 26d4b040cb422abef1d511ce84785f3c6bdc421b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:06 +0000
Subject: [PATCH 06/26] fix: x/team: never issue more than the team allocation

---
 x/team/keeper/msg_server_clawback.go               | 14 ++++++++++++++
 .../msg_server_create_team_vesting_account.go      |  8 ++++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/x/team/keeper/msg_server_clawback.go b/x/team/keeper/msg_server_clawback.go
index ddebb46..02e0a1a 100644
--- a/x/team/keeper/msg_server_clawback.go
+++ b/x/team/keeper/msg_server_clawback.go
@@ -31,7 +31,21 @@ func (k msgServer) Clawback(goCtx context.Context, msg *types.MsgClawback) (*typ
 		return nil, errors.Wrapf(sdkErrors.ErrLogic, types.ErrInvalidClawbackDate.Error())
 	}
 
+	previousMaxAmount := getVestingMaxAmount(account)
 	account.Clawback = msg.Clawback
+
+	// resetting or postponing a clawback must not exceed the team allocation, since the
+	// clawed back amount could have been issued to other accounts in the meantime
+	if maxAmount := getVestingMaxAmount(account); maxAmount > previousMaxAmount {
+		available := uint64(0)
+		if issued := k.GetIssuedTeamAllocation(ctx); issued < types.TEAM_ALLOCATION {
+			available = types.TEAM_ALLOCATION - issued
+		}
+		if maxAmount-previousMaxAmount > available {
+			return nil, errors.Wrapf(sdkErrors.ErrLogic, types.ErrAvailableFundsTooLow.Error(), available, maxAmount-previousMaxAmount)
+		}
+	}
+
 	k.SetTeamVestingAccount(ctx, account)
 
 	_ = ctx.EventManager().EmitTypedEvent(&types.EventClawback{
diff --git a/x/team/keeper/msg_server_create_team_vesting_account.go b/x/team/keeper/msg_server_create_team_vesting_account.go
index f9924a6..e2975c6 100644
--- a/x/team/keeper/msg_server_create_team_vesting_account.go
+++ b/x/team/keeper/msg_server_create_team_vesting_account.go
@@ -21,8 +21,12 @@ func (k msgServer) CreateTeamVestingAccount(goCtx context.Context, msg *types.Ms
 	}
 
 	// check if new team vesting account still has allocation left
-	if k.GetIssuedTeamAllocation(ctx)+msg.TotalAllocation > types.TEAM_ALLOCATION {
-		return nil, errors.Wrapf(errorsTypes.ErrLogic, types.ErrAvailableFundsTooLow.Error(), types.TEAM_ALLOCATION-k.GetIssuedTeamAllocation(ctx), msg.TotalAllocation)
+	available := uint64(0)
+	if issued := k.GetIssuedTeamAllocation(ctx); issued < types.TEAM_ALLOCATION {
+		available = types.TEAM_ALLOCATION - issued
+	}
+	if msg.TotalAllocation > available {
+		return nil, errors.Wrapf(errorsTypes.ErrLogic, types.ErrAvailableFundsTooLow.Error(), available, msg.TotalAllocation)
 	}
 
 	id := k.AppendTeamVestingAccount(ctx, types.TeamVestingAccount{
-- 
2.43.0


From 8e282b03b279bf03362cda8f23d8c640ad37bef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:06 +0000
Subject: [PATCH 07/26] fix: x/pool: do not end upgrades early because of an
 overflowing duration

---
 x/pool/keeper/logic_end_block_handle_pool_upgrades.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/pool/keeper/logic_end_block_handle_pool_upgrades.go b/x/pool/keeper/logic_end_block_handle_pool_upgrades.go
index f6f58ff..f4d7907 100644
--- a/x/pool/keeper/logic_end_block_handle_pool_upgrades.go
+++ b/x/pool/keeper/logic_end_block_handle_pool_upgrades.go
@@ -20,7 +20,7 @@ func (k Keeper) HandlePoolUpgrades(ctx sdk.Context) {
 			}
 
 			// Check if upgrade duration was reached
-			if uint64(ctx.BlockTime().Unix()) >= (pool.UpgradePlan.ScheduledAt + pool.UpgradePlan.Duration) {
+			if uint64(ctx.BlockTime().Unix())-pool.UpgradePlan.ScheduledAt >= pool.UpgradePlan.Duration {
 				// reset upgrade plan to default values
 				pool.UpgradePlan = &types.UpgradePlan{}
 			}
-- 
2.43.0


From 4056c73d1ed290c4d21b92dd651d12adb8f24a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:06 +0000
Subject: [PATCH 08/26] fix: x/funders: do not evict another funder if the
 funder already has a slot

---
 x/funders/keeper/logic_funders.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/x/funders/keeper/logic_funders.go b/x/funders/keeper/logic_funders.go
index 7b1f245..92c9b4b 100644
--- a/x/funders/keeper/logic_funders.go
+++ b/x/funders/keeper/logic_funders.go
@@ -199,16 +199,18 @@ func (k Keeper) ensureFreeSlot(ctx sdk.Context, newFunding *types.Funding, fundi
 		return nil
 	}
 
+	for i := range activeFundings {
+		if activeFundings[i].FunderAddress == newFunding.FunderAddress {
+			// Funder already has a funding slot
+			return nil
+		}
+	}
+
 	lowestFunding, err := k.GetLowestFunding(ctx, activeFundings)
 	if err != nil {
 		return err
 	}
 
-	if lowestFunding.FunderAddress == newFunding.FunderAddress {
-		// Funder already has a funding slot
-		return nil
-	}
-
 	whitelist := k.GetCoinWhitelistMap(ctx)
 
 	// Check if lowest funding is lower than new funding based on amount (amount per bundle is ignored)
-- 
2.43.0


From a36524b76b1b12c87aeb1b56e1968cedd43dc757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:06 +0000
Subject: [PATCH 09/26] fix: validate the merged params before applying a
 params update

---
 x/bundles/keeper/msg_server_update_params.go    | 10 +++++++++-
 x/delegation/keeper/msg_server_update_params.go | 10 +++++++++-
 x/funders/keeper/msg_server_update_params.go    | 10 +++++++++-
 x/global/keeper/msg_server_update_params.go     | 10 +++++++++-
 x/pool/keeper/msg_server_update_params.go       | 10 +++++++++-
 x/stakers/keeper/msg_server_update_params.go    | 10 +++++++++-
 6 files changed, 54 insertions(+), 6 deletions(-)

diff --git a/x/bundles/keeper/msg_server_update_params.go b/x/bundles/keeper/msg_server_update_params.go
index 9e67e99..c62132e 100644
--- a/x/bundles/keeper/msg_server_update_params.go
+++ b/x/bundles/keeper/msg_server_update_params.go
@@ -23,7 +23,15 @@ func (k msgServer) UpdateParams(goCtx context.Context, msg *types.MsgUpdateParam
 	oldParams := k.GetParams(ctx)
 
 	newParams := oldParams
-	_ = json.Unmarshal([]byte(msg.Payload), &newParams)
+	if err := json.Unmarshal([]byte(msg.Payload), &newParams); err != nil {
+		return nil, err
+	}
+
+	// the payload only gets merged here, so the resulting params have to be checked
+	if err := newParams.Validate(); err != nil {
+		return nil, err
+	}
+
 	k.SetParams(ctx, newParams)
 
 	_ = ctx.EventManager().EmitTypedEvent(&types.EventUpdateParams{
diff --git a/x/delegation/keeper/msg_server_update_params.go b/x/delegation/keeper/msg_server_update_params.go
index 712e584..c1ff2c3 100644
--- a/x/delegation/keeper/msg_server_update_params.go
+++ b/x/delegation/keeper/msg_server_update_params.go
@@ -22,7 +22,15 @@ func (k msgServer) UpdateParams(goCtx context.Context, msg *types.MsgUpdateParam
 	oldParams := k.GetParams(ctx)
 
 	newParams := oldParams
-	_ = json.Unmarshal([]byte(msg.Payload), &newParams)
+	if err := json.Unmarshal([]byte(msg.Payload), &newParams); err != nil {
+		return nil, err
+	}
+
+	// the payload only gets merged here, so the resulting params have to be checked
+	if err := newParams.Validate(); err != nil {
+		return nil, err
+	}
+
 	k.SetParams(ctx, newParams)
 
 	_ = ctx.EventManager().EmitTypedEvent(&types.EventUpdateParams{
diff --git a/x/funders/keeper/msg_server_update_params.go b/x/funders/keeper/msg_server_update_params.go
index 0872cc6..ba43a10 100644
--- a/x/funders/keeper/msg_server_update_params.go
+++ b/x/funders/keeper/msg_server_update_params.go
@@ -22,7 +22,15 @@ func (k msgServer) UpdateParams(goCtx context.Context, msg *types.MsgUpdateParam
 	oldParams := k.GetParams(ctx)
 
 	newParams := oldParams
-	_ = json.Unmarshal([]byte(msg.Payload), &newParams)
+	if err := json.Unmarshal([]byte(msg.Payload), &newParams); err != nil {
+		return nil, err
+	}
+
+	// the payload only gets merged here, so the resulting params have to be checked
+	if err := newParams.Validate(); err != nil {
+		return nil, err
+	}
+
 	k.SetParams(ctx, newParams)
 
 	_ = ctx.EventManager().EmitTypedEvent(&types.EventUpdateParams{
diff --git a/x/global/keeper/msg_server_update_params.go b/x/global/keeper/msg_server_update_params.go
index 4189a23..8b4668a 100644
--- a/x/global/keeper/msg_server_update_params.go
+++ b/x/global/keeper/msg_server_update_params.go
@@ -22,7 +22,15 @@ func (k msgServer) UpdateParams(goCtx context.Context, msg *types.MsgUpdateParam
 	oldParams := k.GetParams(ctx)
 
 	newParams := oldParams
-	_ = json.Unmarshal([]byte(msg.Payload), &newParams)
+	if err := json.Unmarshal([]byte(msg.Payload), &newParams); err != nil {
+		return nil, err
+	}
+
+	// the payload only gets merged here, so the resulting params have to be checked
+	if err := newParams.Validate(); err != nil {
+		return nil, err
+	}
+
 	k.SetParams(ctx, newParams)
 
 	_ = ctx.EventManager().EmitTypedEvent(&types.EventUpdateParams{
diff --git a/x/pool/keeper/msg_server_update_params.go b/x/pool/keeper/msg_server_update_params.go
index 9209b96..840fa76 100644
--- a/x/pool/keeper/msg_server_update_params.go
+++ b/x/pool/keeper/msg_server_update_params.go
@@ -22,7 +22,15 @@ func (k msgServer) UpdateParams(goCtx context.Context, msg *types.MsgUpdateParam
 	oldParams := k.GetParams(ctx)
 
 	newParams := oldParams
-	_ = json.Unmarshal([]byte(msg.Payload), &newParams)
+	if err := json.Unmarshal([]byte(msg.Payload), &newParams); err != nil {
+		return nil, err
+	}
+
+	// the payload only gets merged here, so the resulting params have to be checked
+	if err := newParams.Validate(); err != nil {
+		return nil, err
+	}
+
 	k.SetParams(ctx, newParams)
 
 	_ = ctx.EventManager().EmitTypedEvent(&types.EventUpdateParams{
diff --git a/x/stakers/keeper/msg_server_update_params.go b/x/stakers/keeper/msg_server_update_params.go
index 0e5e6a6..9974091 100644
--- a/x/stakers/keeper/msg_server_update_params.go
+++ b/x/stakers/keeper/msg_server_update_params.go
@@ -22,7 +22,15 @@ func (k msgServer) UpdateParams(goCtx context.Context, msg *types.MsgUpdateParam
 	oldParams := k.GetParams(ctx)
 
 	newParams := oldParams
-	_ = json.Unmarshal([]byte(msg.Payload), &newParams)
+	if err := json.Unmarshal([]byte(msg.Payload), &newParams); err != nil {
+		return nil, err
+	}
+
+	// the payload only gets merged here, so the resulting params have to be checked
+	if err := newParams.Validate(); err != nil {
+		return nil, err
+	}
+
 	k.SetParams(ctx, newParams)
 
 	_ = ctx.EventManager().EmitTypedEvent(&types.EventUpdateParams{
-- 
2.43.0


From 7ed1f989c46ac600c7ac066068b17c196ba8d912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:06 +0000
Subject: [PATCH 10/26] fix: x/delegation: round delegation rewards down so
 that they are always covered

---
 x/delegation/keeper/logic_f1distribution.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x/delegation/keeper/logic_f1distribution.go b/x/delegation/keeper/logic_f1distribution.go
index 5dc4a88..8137d0b 100644
--- a/x/delegation/keeper/logic_f1distribution.go
+++ b/x/delegation/keeper/logic_f1distribution.go
@@ -42,7 +42,7 @@ func (k Keeper) f1StartNewPeriod(ctx sdk.Context, staker string, delegationData
 		decTotalDelegation := math.LegacyNewDec(int64(delegationData.TotalDelegation))
 
 		// F1: $T_f / n_f$
-		currentPeriodValue = decCurrentRewards.QuoDec(decTotalDelegation)
+		currentPeriodValue = decCurrentRewards.QuoDecTruncate(decTotalDelegation)
 	}
 
 	// Add previous entry to current one
@@ -320,7 +320,7 @@ func (k Keeper) f1GetOutstandingRewards(ctx sdk.Context, stakerAddress string, d
 		decTotalDelegation := math.LegacyNewDec(int64(delegationData.TotalDelegation))
 
 		// F1: $T_f / n_f$
-		currentPeriodValue = decCurrentRewards.QuoDec(decTotalDelegation)
+		currentPeriodValue = decCurrentRewards.QuoDecTruncate(decTotalDelegation)
 	}
 
 	ongoingPeriodReward := safeMulDec(currentPeriodValue, latestBalance)
@@ -357,5 +357,5 @@ func safeMulDec(coins sdk.DecCoins, scalar math.LegacyDec) sdk.DecCoins {
 	if scalar.IsZero() {
 		return sdk.NewDecCoins()
 	}
-	return coins.MulDec(scalar)
+	return coins.MulDecTruncate(scalar)
 }
-- 
2.43.0


From fde6e77da7b5e5a53d81cccbcd7cd6a365ddcdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:18 +0000
Subject: [PATCH 11/26] fix: page through stakers by pool count from the first
 page

arrayPagination treated pages as zero-based although ParsePagination counts
from one: the first page was skipped and the query panicked when the list
had fewer entries than a page.
---
 x/delegation/keeper/getters_index_stakers.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/x/delegation/keeper/getters_index_stakers.go b/x/delegation/keeper/getters_index_stakers.go
index 4974608..cf9b49f 100644
--- a/x/delegation/keeper/getters_index_stakers.go
+++ b/x/delegation/keeper/getters_index_stakers.go
@@ -28,11 +28,13 @@ func arrayPagination(slice []string, pagination *query.PageRequest) ([]string, *
 		return nil, nil, err
 	}
 
-	resultLength := util.MinInt(limit, len(slice)-page*limit)
+	// pages start at one
+	startIndex := util.MinInt((page-1)*limit, len(slice))
+	resultLength := util.MinInt(limit, len(slice)-startIndex)
 	result := make([]string, resultLength)
 
 	for i := 0; i < resultLength; i++ {
-		result[i] = slice[page*limit+i]
+		result[i] = slice[startIndex+i]
 	}
 
 	pageRes := &query.PageResponse{
-- 
2.43.0


From 5b389001259be605f83fae2908b5b01837a3ebc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:57 +0000
Subject: [PATCH 12/26] fix: return no bundles for a reverse offset beyond the
 last bundle

The offset was subtracted from the number of bundles without a bound, so an
offset larger than the total wrapped around and returned the newest bundles
again.
---
 x/bundles/keeper/getters_bundles.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/bundles/keeper/getters_bundles.go b/x/bundles/keeper/getters_bundles.go
index 17f222d..288e7c8 100644
--- a/x/bundles/keeper/getters_bundles.go
+++ b/x/bundles/keeper/getters_bundles.go
@@ -244,7 +244,7 @@ func (k Keeper) GetPaginatedFinalizedBundleQuery(ctx sdk.Context, pagination *qu
 	// Translate offset to next page keys
 	if len(key) == 0 {
 		if reverse {
-			pagination.Key = util.GetByteKey(pageResponse.Total - offset)
+			pagination.Key = util.GetByteKey(pageResponse.Total - util.MinUInt64(offset, pageResponse.Total))
 		} else {
 			pagination.Key = util.GetByteKey(offset)
 		}
-- 
2.43.0


From 7de79029d8d126221ee1bfa0b982d3d169154b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:44 +0000
Subject: [PATCH 13/26] fix: do not wrap around the available redelegation
 slots

Governance can lower redelegation_max_amount below the number of slots a
delegator already uses; the query then reported almost 2^64 available slots.
---
 x/query/keeper/grpc_account_redelegation.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/x/query/keeper/grpc_account_redelegation.go b/x/query/keeper/grpc_account_redelegation.go
index d6bac7d..a08ce3d 100644
--- a/x/query/keeper/grpc_account_redelegation.go
+++ b/x/query/keeper/grpc_account_redelegation.go
@@ -3,6 +3,7 @@ package keeper
 import (
 	"context"
 
+	"github.com/KYVENetwork/chain/util"
 	"github.com/KYVENetwork/chain/x/query/types"
 	sdk "github.com/cosmos/cosmos-sdk/types"
 	"google.golang.org/grpc/codes"
@@ -31,8 +32,11 @@ func (k Keeper) AccountRedelegation(goCtx context.Context, req *types.QueryAccou
 		}
 	}
 
+	// The maximum can be lowered by governance while slots are in use
+	maxSlots := k.delegationKeeper.GetRedelegationMaxAmount(ctx)
+
 	return &types.QueryAccountRedelegationResponse{
 		RedelegationCooldownEntries: redelegationEntries,
-		AvailableSlots:              k.delegationKeeper.GetRedelegationMaxAmount(ctx) - usedSlots,
+		AvailableSlots:              maxSlots - util.MinUInt64(usedSlots, maxSlots),
 	}, nil
 }
-- 
2.43.0


From 17e7854e2c8d61ef6c67cc8a4da9771180da776e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:02 +0000
Subject: [PATCH 14/26] fix: list exactly the existing stakers in the
 delegation index

An empty undelegation or redelegation from any address that is not a staker
put that address into the index, so the staker queries returned empty
entries. After a restart on the other hand the index was rebuilt without
stakers which never had a delegation.
---
 x/delegation/keeper/getters_index_stakers.go | 5 +++++
 x/delegation/keeper/keeper.go                | 5 +++--
 x/delegation/types/expected_keepers.go       | 1 +
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/x/delegation/keeper/getters_index_stakers.go b/x/delegation/keeper/getters_index_stakers.go
index cf9b49f..5685773 100644
--- a/x/delegation/keeper/getters_index_stakers.go
+++ b/x/delegation/keeper/getters_index_stakers.go
@@ -78,6 +78,11 @@ func arrayPaginationAccumulator(slice []string, pagination *query.PageRequest, a
 // SetStakerIndex sets and Index-entry which sorts all stakers (active and passive)
 // by its total delegation
 func (k Keeper) SetStakerIndex(ctx sdk.Context, staker string) {
+	// An (empty) undelegation can name an address which is not a staker
+	if !k.stakersKeeper.DoesStakerExist(ctx, staker) {
+		return
+	}
+
 	amount := k.GetDelegationAmount(ctx, staker)
 	storeAdapter := runtime.KVStoreAdapter(k.memService.OpenMemoryStore(ctx))
 	store := prefix.NewStore(storeAdapter, types.StakerIndexKeyPrefix)
diff --git a/x/delegation/keeper/keeper.go b/x/delegation/keeper/keeper.go
index 7f54a34..9927a95 100644
--- a/x/delegation/keeper/keeper.go
+++ b/x/delegation/keeper/keeper.go
@@ -75,8 +75,9 @@ func (k Keeper) InitMemStore(gasCtx sdk.Context) {
 
 		// Update mem index
 		noGasCtx := gasCtx.WithBlockGasMeter(storetypes.NewInfiniteGasMeter())
-		for _, entry := range k.GetAllDelegationData(noGasCtx) {
-			k.SetStakerIndex(noGasCtx, entry.Staker)
+		// This includes stakers which never had a delegation
+		for _, staker := range k.stakersKeeper.GetAllStakers(noGasCtx) {
+			k.SetStakerIndex(noGasCtx, staker.Address)
 		}
 
 		memStoreInitialized = true
diff --git a/x/delegation/types/expected_keepers.go b/x/delegation/types/expected_keepers.go
index 4597599..7430b5b 100644
--- a/x/delegation/types/expected_keepers.go
+++ b/x/delegation/types/expected_keepers.go
@@ -27,6 +27,7 @@ type UpgradeKeeper interface {
 
 type StakersKeeper interface {
 	DoesStakerExist(ctx sdk.Context, staker string) bool
+	GetAllStakers(ctx sdk.Context) (list []stakerstypes.Staker)
 	GetAllStakerAddressesOfPool(ctx sdk.Context, poolId uint64) (stakers []string)
 	GetValaccountsFromStaker(ctx sdk.Context, stakerAddress string) (val []*stakerstypes.Valaccount)
 	GetPoolCount(ctx sdk.Context, stakerAddress string) (poolCount uint64)
-- 
2.43.0


From b4de04d0bb99c2599de6761fdfc1b3e4c27de635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 15/26] fix: do not use the allowance of a fee granter twice

The refund handler called UseGrantedFees again to find out who had paid the
fee. A refundable transaction was charged twice against the allowance, and
it failed altogether if the remaining allowance did not cover a second fee.
---
 x/global/post.go  |  6 +-----
 x/global/utils.go | 17 +++++------------
 2 files changed, 6 insertions(+), 17 deletions(-)

diff --git a/x/global/post.go b/x/global/post.go
index a4a7073..91535f5 100644
--- a/x/global/post.go
+++ b/x/global/post.go
@@ -70,11 +70,7 @@ func (rfd RefundFeeDecorator) PostHandle(ctx sdk.Context, tx sdk.Tx, simulate bo
 	}
 
 	// Send the refund back to this transaction's fee payer.
-	account, err := GetFeeAccount(ctx, feeTx, rfd.feeGrantKeeper)
-	if err != nil {
-		return ctx, err
-	}
-	err = rfd.bankKeeper.SendCoinsFromModuleToAccount(ctx, authTypes.FeeCollectorName, account, refund)
+	err = rfd.bankKeeper.SendCoinsFromModuleToAccount(ctx, authTypes.FeeCollectorName, GetFeeAccount(feeTx), refund)
 	if err != nil {
 		return ctx, err
 	}
diff --git a/x/global/utils.go b/x/global/utils.go
index 3584957..b475ff0 100644
--- a/x/global/utils.go
+++ b/x/global/utils.go
@@ -12,30 +12,23 @@ import (
 
 	// Auth
 	"github.com/cosmos/cosmos-sdk/x/auth/ante"
-	// FeeGrant
-	feeGrantKeeper "cosmossdk.io/x/feegrant/keeper"
 	// Global
 	"github.com/KYVENetwork/chain/x/global/keeper"
 	// Staking
 	stakingKeeper "github.com/cosmos/cosmos-sdk/x/staking/keeper"
 )
 
-func GetFeeAccount(ctx sdk.Context, tx sdk.FeeTx, feeGrantKeeper feeGrantKeeper.Keeper) (sdk.AccAddress, error) {
-	fee := tx.GetFee()
+// GetFeeAccount returns the account which paid the fee of the given transaction.
+// The allowance of a fee granter has already been used when the fee was deducted.
+func GetFeeAccount(tx sdk.FeeTx) sdk.AccAddress {
 	feePayer := tx.FeePayer()
 	feeGranter := tx.FeeGranter()
 
-	account := feePayer
 	if feeGranter != nil && !bytes.Equal(feeGranter, feePayer) {
-		err := feeGrantKeeper.UseGrantedFees(ctx, feeGranter, feePayer, fee, tx.GetMsgs())
-		if err != nil {
-			return nil, sdkErrors.Wrapf(err, "%s does not not allow to pay fees for %s", feeGranter, feePayer)
-		}
-
-		account = feeGranter
+		return feeGranter
 	}
 
-	return account, nil
+	return feePayer
 }
 
 // BuildTxFeeChecker ensures that the configured minimum gas price is met.
-- 
2.43.0


From d80e73d6431eabf6e26037a6a95bb4379264596a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 16/26] fix: do not list validators without delegation for
 governance

---
 x/stakers/keeper/exported_functions.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/x/stakers/keeper/exported_functions.go b/x/stakers/keeper/exported_functions.go
index c661b45..2dbd72c 100644
--- a/x/stakers/keeper/exported_functions.go
+++ b/x/stakers/keeper/exported_functions.go
@@ -99,6 +99,12 @@ func (k Keeper) GetActiveValidators(ctx context.Context) (validators []interface
 	for _, address := range k.getAllActiveStakers(sdkCtx) {
 		delegation := int64(k.delegationKeeper.GetDelegationAmount(sdkCtx, address))
 
+		// A validator without any delegation has no voting power. As the governance
+		// divides by the total delegation of a validator it must not be listed.
+		if delegation == 0 {
+			continue
+		}
+
 		validator := govV1Types.NewValidatorGovInfo(
 			sdk.ValAddress(sdk.MustAccAddressFromBech32(address)),
 			math.NewInt(delegation),
-- 
2.43.0


From a7a982a348afb0cc513d218444702442701528c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:00 +0000
Subject: [PATCH 17/26] fix: build the index of stakers after the stakers were
 imported

The index lists the existing stakers, but the genesis of the stakers module
is imported after the one of the delegation module.
---
 x/delegation/genesis.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x/delegation/genesis.go b/x/delegation/genesis.go
index eaf9867..63cdeca 100644
--- a/x/delegation/genesis.go
+++ b/x/delegation/genesis.go
@@ -37,7 +37,8 @@ func InitGenesis(ctx sdk.Context, k keeper.Keeper, genState types.GenesisState)
 		k.SetRedelegationCooldown(ctx, entry)
 	}
 
-	k.InitMemStore(ctx)
+	// The index of stakers is built in the first BeginBlock,
+	// as the stakers module is initialized after this module.
 }
 
 // ExportGenesis returns the capability module's exported genesis.
-- 
2.43.0


From 0c966d089e7cdc3a8fe64cc598cb010dfe8a864d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:12 +0000
Subject: [PATCH 18/26] fix: x/funders: reject coin decimals which exceed the
 precision of decimals

---
 x/funders/types/params.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/x/funders/types/params.go b/x/funders/types/params.go
index f998c08..6a9ded3 100644
--- a/x/funders/types/params.go
+++ b/x/funders/types/params.go
@@ -54,6 +54,10 @@ func (p *Params) Validate() error {
 			return errors.New("coin denom is empty")
 		}
 
+		if entry.CoinDecimals > math.LegacyPrecision {
+			return fmt.Errorf("coin decimals of \"%s\" exceed %d: %d", entry.CoinDenom, math.LegacyPrecision, entry.CoinDecimals)
+		}
+
 		if err := util.ValidateInt(entry.MinFundingAmount); err != nil {
 			return err
 		}
-- 
2.43.0


From 81c1ad56ab20a27ff66e10b6e9aaf16985b68c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:12 +0000
Subject: [PATCH 19/26] fix: reject decimals which make later calculations
 exceed the decimal range

---
 util/validate.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/util/validate.go b/util/validate.go
index 7288a70..b412601 100644
--- a/util/validate.go
+++ b/util/validate.go
@@ -6,6 +6,10 @@ import (
 	"cosmossdk.io/math"
 )
 
+// MaxDecimal is the largest decimal which is accepted from users or the governance. It is far
+// beyond every reasonable value and ensures that calculations do not exceed the decimal range.
+var MaxDecimal = math.LegacyNewDec(1_000_000_000_000_000_000)
+
 func ValidateDecimal(i interface{}) error {
 	v, ok := i.(math.LegacyDec)
 	if !ok {
@@ -16,6 +20,10 @@ func ValidateDecimal(i interface{}) error {
 		return fmt.Errorf("invalid decimal: %s", v)
 	}
 
+	if v.GT(MaxDecimal) {
+		return fmt.Errorf("decimal exceeds %s: %s", MaxDecimal, v)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From b963d2ab427e53b6f61ee792486072eefcd3f643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:26 +0000
Subject: [PATCH 20/26] fix: x/delegation: do not wrap around huge unbonding
 and redelegation parameters

---
 util/logic_math.go                           | 10 ++++++++++
 x/delegation/keeper/logic_redelegation.go    |  5 +++--
 x/delegation/keeper/logic_unbonding.go       |  2 +-
 x/delegation/keeper/msg_server_undelegate.go |  3 ++-
 x/query/keeper/grpc_account_redelegation.go  |  2 +-
 5 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/util/logic_math.go b/util/logic_math.go
index 0c3ab98..a2b56a0 100644
--- a/util/logic_math.go
+++ b/util/logic_math.go
@@ -1,5 +1,7 @@
 package util
 
+import "math"
+
 func MinInt(a int, b int) int {
 	if a < b {
 		return a
@@ -20,3 +22,11 @@ func MaxUInt64(a uint64, b uint64) uint64 {
 	}
 	return b
 }
+
+// SaturatingAdd returns the sum of two uint64 or the largest uint64 if the sum would overflow
+func SaturatingAdd(a, b uint64) uint64 {
+	if sum := a + b; sum >= a {
+		return sum
+	}
+	return math.MaxUint64
+}
diff --git a/x/delegation/keeper/logic_redelegation.go b/x/delegation/keeper/logic_redelegation.go
index 945ff38..0f2c956 100644
--- a/x/delegation/keeper/logic_redelegation.go
+++ b/x/delegation/keeper/logic_redelegation.go
@@ -4,6 +4,7 @@ import (
 	sdkErrors "cosmossdk.io/errors"
 	errorsTypes "github.com/cosmos/cosmos-sdk/types/errors"
 
+	"github.com/KYVENetwork/chain/util"
 	"github.com/KYVENetwork/chain/x/delegation/types"
 	sdk "github.com/cosmos/cosmos-sdk/types"
 )
@@ -15,7 +16,7 @@ func (k Keeper) consumeRedelegationSpell(ctx sdk.Context, address string) error
 	// Check if cooldowns are over,
 	// Remove all expired entries
 	for _, creationDate := range k.GetRedelegationCooldownEntries(ctx, address) {
-		if ctx.BlockTime().Unix()-int64(creationDate) > int64(k.GetRedelegationCooldown(ctx)) {
+		if util.SaturatingAdd(creationDate, k.GetRedelegationCooldown(ctx)) < uint64(ctx.BlockTime().Unix()) {
 			k.RemoveRedelegationCooldown(ctx, address, creationDate)
 		} else {
 			break
@@ -26,7 +27,7 @@ func (k Keeper) consumeRedelegationSpell(ctx sdk.Context, address string) error
 	creationDates := k.GetRedelegationCooldownEntries(ctx, address)
 
 	// Check if there are still free slots
-	if len(creationDates) >= int(k.GetRedelegationMaxAmount(ctx)) {
+	if uint64(len(creationDates)) >= k.GetRedelegationMaxAmount(ctx) {
 		return sdkErrors.Wrapf(errorsTypes.ErrLogic, types.ErrRedelegationOnCooldown.Error())
 	}
 
diff --git a/x/delegation/keeper/logic_unbonding.go b/x/delegation/keeper/logic_unbonding.go
index 4cf886e..048c423 100644
--- a/x/delegation/keeper/logic_unbonding.go
+++ b/x/delegation/keeper/logic_unbonding.go
@@ -54,7 +54,7 @@ func (k Keeper) ProcessDelegatorUnbondingQueue(ctx sdk.Context) {
 			}
 		} else
 		// Check if unbonding time is over
-		if undelegationEntry.CreationTime+k.GetUnbondingDelegationTime(ctx) <= uint64(ctx.BlockTime().Unix()) {
+		if util.SaturatingAdd(undelegationEntry.CreationTime, k.GetUnbondingDelegationTime(ctx)) <= uint64(ctx.BlockTime().Unix()) {
 
 			// Perform undelegation and save undelegated amount to then transfer back to the user
 			undelegatedAmount := k.performUndelegation(ctx, undelegationEntry.Staker, undelegationEntry.Delegator, undelegationEntry.Amount)
diff --git a/x/delegation/keeper/msg_server_undelegate.go b/x/delegation/keeper/msg_server_undelegate.go
index cc1217a..33dd964 100644
--- a/x/delegation/keeper/msg_server_undelegate.go
+++ b/x/delegation/keeper/msg_server_undelegate.go
@@ -3,6 +3,7 @@ package keeper
 import (
 	"context"
 
+	"github.com/KYVENetwork/chain/util"
 	"github.com/KYVENetwork/chain/x/delegation/types"
 	sdk "github.com/cosmos/cosmos-sdk/types"
 )
@@ -26,7 +27,7 @@ func (k msgServer) Undelegate(goCtx context.Context, msg *types.MsgUndelegate) (
 		Address:                   msg.Creator,
 		Staker:                    msg.Staker,
 		Amount:                    msg.Amount,
-		EstimatedUndelegationDate: uint64(ctx.BlockTime().Unix()) + k.GetUnbondingDelegationTime(ctx),
+		EstimatedUndelegationDate: util.SaturatingAdd(uint64(ctx.BlockTime().Unix()), k.GetUnbondingDelegationTime(ctx)),
 	})
 
 	return &types.MsgUndelegateResponse{}, nil
diff --git a/x/query/keeper/grpc_account_redelegation.go b/x/query/keeper/grpc_account_redelegation.go
index a08ce3d..14d21df 100644
--- a/x/query/keeper/grpc_account_redelegation.go
+++ b/x/query/keeper/grpc_account_redelegation.go
@@ -21,7 +21,7 @@ func (k Keeper) AccountRedelegation(goCtx context.Context, req *types.QueryAccou
 
 	for _, creationDate := range k.delegationKeeper.GetRedelegationCooldownEntries(ctx, req.Address) {
 
-		finishDate := creationDate + k.delegationKeeper.GetRedelegationCooldown(ctx)
+		finishDate := util.SaturatingAdd(creationDate, k.delegationKeeper.GetRedelegationCooldown(ctx))
 
 		if finishDate >= uint64(ctx.BlockTime().Unix()) {
 			redelegationEntries = append(redelegationEntries, types.RedelegationEntry{
-- 
2.43.0


From 574d8c2d236f126e7cf02d288b5c6c193d5969d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:26 +0000
Subject: [PATCH 21/26] fix: x/stakers: do not wrap around huge notice periods

---
 x/stakers/keeper/logic_commission.go | 3 ++-
 x/stakers/keeper/logic_leave.go      | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/x/stakers/keeper/logic_commission.go b/x/stakers/keeper/logic_commission.go
index 2e567d8..0702321 100644
--- a/x/stakers/keeper/logic_commission.go
+++ b/x/stakers/keeper/logic_commission.go
@@ -2,6 +2,7 @@ package keeper
 
 import (
 	"cosmossdk.io/math"
+	"github.com/KYVENetwork/chain/util"
 	"github.com/KYVENetwork/chain/x/stakers/types"
 	sdk "github.com/cosmos/cosmos-sdk/types"
 )
@@ -40,7 +41,7 @@ func (k Keeper) ProcessCommissionChangeQueue(ctx sdk.Context) {
 		if !found {
 			// continue with the next entry
 			return true
-		} else if queueEntry.CreationDate+int64(k.GetCommissionChangeTime(ctx)) <= ctx.BlockTime().Unix() {
+		} else if util.SaturatingAdd(uint64(queueEntry.CreationDate), k.GetCommissionChangeTime(ctx)) <= uint64(ctx.BlockTime().Unix()) {
 
 			k.RemoveCommissionChangeEntry(ctx, &queueEntry)
 
diff --git a/x/stakers/keeper/logic_leave.go b/x/stakers/keeper/logic_leave.go
index 711c7fe..0139362 100644
--- a/x/stakers/keeper/logic_leave.go
+++ b/x/stakers/keeper/logic_leave.go
@@ -2,6 +2,7 @@ package keeper
 
 import (
 	"cosmossdk.io/errors"
+	"github.com/KYVENetwork/chain/util"
 	"github.com/KYVENetwork/chain/x/stakers/types"
 	sdk "github.com/cosmos/cosmos-sdk/types"
 	errorsTypes "github.com/cosmos/cosmos-sdk/types/errors"
@@ -49,7 +50,7 @@ func (k Keeper) ProcessLeavePoolQueue(ctx sdk.Context) {
 		if !found {
 			// continue with the next entry
 			return true
-		} else if queueEntry.CreationDate+int64(k.GetLeavePoolTime(ctx)) <= ctx.BlockTime().Unix() {
+		} else if util.SaturatingAdd(uint64(queueEntry.CreationDate), k.GetLeavePoolTime(ctx)) <= uint64(ctx.BlockTime().Unix()) {
 
 			k.RemoveLeavePoolEntry(ctx, &queueEntry)
 			k.LeavePool(ctx, queueEntry.Staker, queueEntry.PoolId)
-- 
2.43.0


From 9e297ffb4284af9a9e3f590e13b75e5b0333c148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:26 +0000
Subject: [PATCH 22/26] fix: x/bundles: do not wrap around huge upload
 intervals and timeouts

---
 x/bundles/keeper/logic_bundles.go                         | 4 ++--
 x/bundles/keeper/logic_end_block_handle_upload_timeout.go | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/x/bundles/keeper/logic_bundles.go b/x/bundles/keeper/logic_bundles.go
index a11a01b..591e735 100644
--- a/x/bundles/keeper/logic_bundles.go
+++ b/x/bundles/keeper/logic_bundles.go
@@ -119,8 +119,8 @@ func (k Keeper) AssertCanPropose(ctx sdk.Context, poolId uint64, staker string,
 	}
 
 	// Check if upload interval has been surpassed
-	if uint64(ctx.BlockTime().Unix()) < (bundleProposal.UpdatedAt + pool.UploadInterval) {
-		return errors.Wrapf(types.ErrUploadInterval, "expected %v < %v", ctx.BlockTime().Unix(), bundleProposal.UpdatedAt+pool.UploadInterval)
+	if uploadAt := util.SaturatingAdd(bundleProposal.UpdatedAt, pool.UploadInterval); uint64(ctx.BlockTime().Unix()) < uploadAt {
+		return errors.Wrapf(types.ErrUploadInterval, "expected %v < %v", ctx.BlockTime().Unix(), uploadAt)
 	}
 
 	// Check if from_index matches
diff --git a/x/bundles/keeper/logic_end_block_handle_upload_timeout.go b/x/bundles/keeper/logic_end_block_handle_upload_timeout.go
index 25d9aed..95ed1ce 100644
--- a/x/bundles/keeper/logic_end_block_handle_upload_timeout.go
+++ b/x/bundles/keeper/logic_end_block_handle_upload_timeout.go
@@ -3,6 +3,7 @@ package keeper
 import (
 	"context"
 
+	"github.com/KYVENetwork/chain/util"
 	"github.com/KYVENetwork/chain/x/bundles/types"
 	sdk "github.com/cosmos/cosmos-sdk/types"
 )
@@ -40,7 +41,8 @@ func (k Keeper) HandleUploadTimeout(goCtx context.Context) {
 		}
 
 		// Skip if we haven't reached the upload interval.
-		if uint64(ctx.BlockTime().Unix()) < (bundleProposal.UpdatedAt + pool.UploadInterval) {
+		uploadAt := util.SaturatingAdd(bundleProposal.UpdatedAt, pool.UploadInterval)
+		if uint64(ctx.BlockTime().Unix()) < uploadAt {
 			continue
 		}
 
@@ -63,7 +65,7 @@ func (k Keeper) HandleUploadTimeout(goCtx context.Context) {
 		}
 
 		// Skip if we haven't reached the upload timeout.
-		if uint64(ctx.BlockTime().Unix()) < (bundleProposal.UpdatedAt + pool.UploadInterval + k.GetUploadTimeout(ctx)) {
+		if uint64(ctx.BlockTime().Unix()) < util.SaturatingAdd(uploadAt, k.GetUploadTimeout(ctx)) {
 			continue
 		}
 
-- 
2.43.0


From 958cf1fbf466a18af4713aedec7c18154025821c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:58 +0000
Subject: [PATCH 23/26] fix: list entries of parameter updates do not inherit
 from the previous ones

json.Unmarshal decoded the entries of storage_costs, coin_whitelist, gas_adjustments
and gas_refunds into the current entries at the same positions. Hence an entry with
an omitted field silently took it over from an unrelated entry instead of being
validated without it, and the old_params of EventUpdateParams were overwritten.
---
 x/bundles/keeper/msg_server_update_params.go | 12 ++++++++++++
 x/funders/keeper/msg_server_update_params.go | 12 ++++++++++++
 x/global/keeper/msg_server_update_params.go  | 16 ++++++++++++++++
 3 files changed, 40 insertions(+)

diff --git a/x/bundles/keeper/msg_server_update_params.go b/x/bundles/keeper/msg_server_update_params.go
index c62132e..6860587 100644
--- a/x/bundles/keeper/msg_server_update_params.go
+++ b/x/bundles/keeper/msg_server_update_params.go
@@ -22,7 +22,19 @@ func (k msgServer) UpdateParams(goCtx context.Context, msg *types.MsgUpdateParam
 	ctx := sdk.UnwrapSDKContext(goCtx)
 	oldParams := k.GetParams(ctx)
 
+	// a list in the payload replaces the current one. Without resetting it first its entries
+	// would be merged into the current entries at the same positions
+	var lists struct {
+		StorageCosts json.RawMessage `json:"storage_costs"`
+	}
+	if err := json.Unmarshal([]byte(msg.Payload), &lists); err != nil {
+		return nil, err
+	}
+
 	newParams := oldParams
+	if lists.StorageCosts != nil {
+		newParams.StorageCosts = nil
+	}
 	if err := json.Unmarshal([]byte(msg.Payload), &newParams); err != nil {
 		return nil, err
 	}
diff --git a/x/funders/keeper/msg_server_update_params.go b/x/funders/keeper/msg_server_update_params.go
index ba43a10..51211f3 100644
--- a/x/funders/keeper/msg_server_update_params.go
+++ b/x/funders/keeper/msg_server_update_params.go
@@ -21,7 +21,19 @@ func (k msgServer) UpdateParams(goCtx context.Context, msg *types.MsgUpdateParam
 	ctx := sdk.UnwrapSDKContext(goCtx)
 	oldParams := k.GetParams(ctx)
 
+	// a list in the payload replaces the current one. Without resetting it first its entries
+	// would be merged into the current entries at the same positions
+	var lists struct {
+		CoinWhitelist json.RawMessage `json:"coin_whitelist"`
+	}
+	if err := json.Unmarshal([]byte(msg.Payload), &lists); err != nil {
+		return nil, err
+	}
+
 	newParams := oldParams
+	if lists.CoinWhitelist != nil {
+		newParams.CoinWhitelist = nil
+	}
 	if err := json.Unmarshal([]byte(msg.Payload), &newParams); err != nil {
 		return nil, err
 	}
diff --git a/x/global/keeper/msg_server_update_params.go b/x/global/keeper/msg_server_update_params.go
index 8b4668a..1049836 100644
--- a/x/global/keeper/msg_server_update_params.go
+++ b/x/global/keeper/msg_server_update_params.go
@@ -21,7 +21,23 @@ func (k msgServer) UpdateParams(goCtx context.Context, msg *types.MsgUpdateParam
 	ctx := sdk.UnwrapSDKContext(goCtx)
 	oldParams := k.GetParams(ctx)
 
+	// a list in the payload replaces the current one. Without resetting it first its entries
+	// would be merged into the current entries at the same positions
+	var lists struct {
+		GasAdjustments json.RawMessage `json:"gas_adjustments"`
+		GasRefunds     json.RawMessage `json:"gas_refunds"`
+	}
+	if err := json.Unmarshal([]byte(msg.Payload), &lists); err != nil {
+		return nil, err
+	}
+
 	newParams := oldParams
+	if lists.GasAdjustments != nil {
+		newParams.GasAdjustments = nil
+	}
+	if lists.GasRefunds != nil {
+		newParams.GasRefunds = nil
+	}
 	if err := json.Unmarshal([]byte(msg.Payload), &newParams); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 84aa323607d2c40fbd3e18b04451c9d18b5a6594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:59 +0000
Subject: [PATCH 24/26] fix: EventRuntimeUpgradeScheduled reports when the
 upgrade takes place

An upgrade scheduled in the past is moved to now, the event still
contained the requested time.
---
 x/pool/keeper/msg_server_schedule_runtime_upgrade.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/pool/keeper/msg_server_schedule_runtime_upgrade.go b/x/pool/keeper/msg_server_schedule_runtime_upgrade.go
index 3b8f1ab..a6a7951 100644
--- a/x/pool/keeper/msg_server_schedule_runtime_upgrade.go
+++ b/x/pool/keeper/msg_server_schedule_runtime_upgrade.go
@@ -61,7 +61,7 @@ func (k msgServer) ScheduleRuntimeUpgrade(
 	_ = ctx.EventManager().EmitTypedEvent(&types.EventRuntimeUpgradeScheduled{
 		Runtime:       req.Runtime,
 		Version:       req.Version,
-		ScheduledAt:   req.ScheduledAt,
+		ScheduledAt:   scheduledAt,
 		Duration:      req.Duration,
 		Binaries:      req.Binaries,
 		AffectedPools: affectedPools,
-- 
2.43.0


From 5e6c45943ad8cdbe1e4b25e7712395e0354b7d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:19 +0000
Subject: [PATCH 25/26] fix: the event of an evicted funder contains the
 refunded amounts

EventDefundPool was built after the amounts had been set to zero.
---
 x/funders/keeper/logic_funders.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x/funders/keeper/logic_funders.go b/x/funders/keeper/logic_funders.go
index 92c9b4b..f1eb40e 100644
--- a/x/funders/keeper/logic_funders.go
+++ b/x/funders/keeper/logic_funders.go
@@ -224,6 +224,7 @@ func (k Keeper) ensureFreeSlot(ctx sdk.Context, newFunding *types.Funding, fundi
 		return err
 	}
 
+	refundedAmounts := lowestFunding.Amounts
 	lowestFunding.Amounts = sdk.NewCoins()
 	lowestFunding.AmountsPerBundle = sdk.NewCoins()
 	fundingState.SetInactive(lowestFunding)
@@ -233,7 +234,7 @@ func (k Keeper) ensureFreeSlot(ctx sdk.Context, newFunding *types.Funding, fundi
 	_ = ctx.EventManager().EmitTypedEvent(&types.EventDefundPool{
 		PoolId:  fundingState.PoolId,
 		Address: lowestFunding.FunderAddress,
-		Amounts: lowestFunding.Amounts.String(),
+		Amounts: refundedAmounts.String(),
 	})
 
 	return nil
-- 
2.43.0


From d6096f70a6227335750ed4cf846760aac25ac2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:01 +0000
Subject: [PATCH 26/26] fix: no leave event for a staker who is not in the pool

A voter who left the pool and is slashed afterwards for his vote
caused a second EventLeavePool.
---
 x/stakers/keeper/exported_functions.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/x/stakers/keeper/exported_functions.go b/x/stakers/keeper/exported_functions.go
index 2dbd72c..99e41a4 100644
--- a/x/stakers/keeper/exported_functions.go
+++ b/x/stakers/keeper/exported_functions.go
@@ -20,6 +20,11 @@ import (
 // The staker is no longer able to participate in the given pool.
 // All points the staker had in that pool are deleted.
 func (k Keeper) LeavePool(ctx sdk.Context, staker string, poolId uint64) {
+	// the staker might have left already, e.g. if he gets slashed for an earlier vote
+	if !k.DoesValaccountExist(ctx, poolId, staker) {
+		return
+	}
+
 	k.RemoveValaccountFromPool(ctx, poolId, staker)
 
 	_ = ctx.EventManager().EmitTypedEvent(&types.EventLeavePool{
-- 
2.43.0

