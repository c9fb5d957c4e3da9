#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = "programs/token-bonding-curve/src/"
PROC, BASE, CALC = P+"processor.rs", P+"curve/base.rs", P+"curve/calculator.rs"
LIN, DFS, CPR = P+"curve/linear_price.rs", P+"dfs_precise_number.rs", P+"curve/constant_price.rs"
CPD, OFF, STB, FEE = P+"curve/constant_product.rs", P+"curve/offset.rs", P+"curve/stable.rs", P+"curve/fees.rs"
ST, CON, LIB, INS = P+"state.rs", P+"constraints.rs", P+"lib.rs", P+"instructions/"
NO_E2E = "The repository has no test that executes an instruction against token accounts (the processor tests are commented out, the TypeScript test needs a validator)"
out = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    out.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Pool funds move only through the pool's own state and accounts",
 "An instruction succeeds only if it names a program-owned, initialized pool together with that pool's own authority, token A vault, token B vault, pool mint, token program and (for swaps and withdrawals) fee account, each in its own role; any substitution of one of these by another account, however similar, makes the whole instruction fail. As a consequence no instruction ever reduces the vault balances, or changes the pool token supply, of any pool other than the one it names, and a swap never uses the same vault on both sides or a vault as the user's side of the same token.",
 ["inputs","histories"], "every instruction, every substitution of its accounts by any other account (accounts of other pools, attacker-made look-alikes, duplicates), every pool state and curve type",
 NO_E2E+", so no account check of the program is exercised at all; account substitution is a combinatorial space.",
 [PROC, INS+"swap.rs", INS+"withdraw_all_token_types.rs"], [("check_accounts", PROC), ("inline checks of process_swap", PROC), ("authority_id PDA derivation", PROC)],
 ["ledger before/after every instruction", "result of every instruction"])
prop("C02", "User tokens move only with the owner's or delegate's signature",
 "Every token account whose balance an instruction reduces, other than the named pool's own vaults, is owned by a signer of the instruction or has delegated at least that amount to a signer, and the delegated allowance shrinks by exactly the amount taken. In particular the pool's program-derived authority never stands in for a user's signature, even for token accounts that authority happens to own, and an instruction in which the user authority did not sign never succeeds.",
 ["inputs","histories"], "every instruction, every choice of signers, owners, delegates and allowances of the accounts involved",
 NO_E2E+"; signature and delegation combinations are never run.",
 [PROC, INS], [("signer constraint on user authority", INS), ("user authority passed to the token program for user-side transfers and burns", PROC)],
 ["ledger before/after", "signer set of the instruction", "cross-program calls"])
prop("C03", "Slippage limits stated by the caller are always honoured",
 "A successful swap takes at most the stated input amount and delivers at least the stated minimum output; a successful two-sided deposit takes at most the stated maxima and, unless the pool is empty of pool tokens, mints exactly the requested pool tokens; a successful two-sided withdrawal removes exactly the stated pool tokens from the user and delivers at least both minima; a successful single-sided deposit takes exactly the stated amount and mints at least the minimum; a successful single-sided withdrawal delivers exactly the stated amount and takes at most the maximum pool tokens including fees. Conversely, a limit that the operation would meet exactly does not make it fail.",
 ["inputs","histories"], "all instructions, amounts, limits (including the exactly met limit and the limit off by one), pool states, fees and curve types",
 NO_E2E+"; limits interact with fees, rounding and partial fills only inside whole instructions.",
 [PROC], [("ExceededSlippage comparisons", PROC)], ["ledger before/after", "limits in the instruction data"])
prop("C04", "An instruction changes only the balances its contract names",
 "A successful instruction changes nothing but the token balances of the accounts filling its documented roles and the pool token supply, and these changes balance: tokens leaving the user arrive in the vault, tokens leaving a vault arrive in the user's account, pool token supply changes by exactly what is minted or burned. The pool's stored configuration, the owners, authorities and freeze states of all token accounts and mints, and all lamport balances (apart from lamports backing wrapped SOL that moves, and delegated allowances that are used up) are unchanged after initialization for ever, and a failed instruction changes nothing.",
 ["inputs","histories"], "every instruction history over several pools sharing mints and users",
 NO_E2E+"; a misdirected transfer or a stray state write cannot show in curve unit tests.",
 [PROC, ST], [("sequence of token program calls per instruction", PROC), ("pool state written only by initialize", PROC)],
 ["full account diff of every instruction"])
prop("C05", "Any input ends in success or a clean error, never a crash",
 "For every instruction data, account list, account content and signer set, the program returns success or an error code: it never panics, overflows, indexes out of bounds, divides by zero or loops without end. The same holds for decoding arbitrary bytes as pool state.",
 ["inputs"], "arbitrary instruction bytes, malformed or truncated accounts, extreme amounts, prices, slopes, fees and supplies",
 "Unit tests call the arithmetic with moderate in-range values; crashes hide at extreme magnitudes and malformed accounts.",
 [PROC, LIN, DFS, CPR, CPD, STB, ST], [("checked arithmetic returning None/errors", LIN), ("to_u64/to_u128 conversions", PROC), ("length-checked unpacking", ST)],
 ["unwinding out of the entry point", "result of every instruction"])
prop("C06", "Only sound pools can be created",
 "A pool is created only if the new pool account signed and is not already in use, the authority is the program-derived address of that pool account, both vaults belong to that authority with no delegate and no close authority and hold different mints, the pool mint has that authority as its only mint authority with zero supply and no freeze authority, the fee account and the initial recipient hold pool tokens and do not belong to the authority, every fee is a proper fraction (or 0/0), the price is non-zero or the slope at least 1e-18 with non-zero denominators, and the starting balances suit the curve (constant price: token A non-zero; linear: token A zero and token B non-zero; other curves their own rule). A request that meets all of these, with a recipient account that is not frozen, always creates the pool.",
 ["inputs","configurations"], "every single or combined violation of the conditions, every parameter value at and around its limits",
 NO_E2E+"; the creation checks are not executed by any Rust test.",
 [PROC, LIN, CPR, FEE, INS+"initialize.rs"], [("process_initialize checks", PROC), ("validate / validate_supply", CALC), ("Fees::validate", FEE)],
 ["result of initialize", "ledger before/after"])
prop("C07", "Creation records the request exactly, once, and mints the fixed supply",
 "After a successful creation the pool state holds exactly the accounts, mints, fees, curve type and curve parameters that were requested, each in its own field, the bump seed that reproduces the authority, and exactly 1,000,000,000 pool tokens exist, all held by the named recipient; a linear pool always has zero fees. A pool account that has been initialized can never be initialized again, by anyone, with any parameters.",
 ["inputs","histories"], "all parameter values (each fee and curve parameter distinct), all re-initialization attempts in any history",
 "Existing tests only pack and unpack hand-made structures; the path from instruction arguments to stored fields is untested.",
 [LIB, PROC, ST, INS+"initialize.rs"], [("argument to field mapping", LIB), ("SwapVersion::pack", ST), ("is_initialized guard", PROC)],
 ["raw bytes of the pool account", "pool mint supply and recipient balance"])
prop("C08", "A linear bonding curve stays fully collateralized",
 "In every history of a linear-price pool, the token A in the vault is at least the exact integral of the price line from zero to the amount of token B sold so far, up to rounding dust of at most one smallest unit per partially filled trade (of token A for a buy that exhausts the vault, of token B for a sale that does) and the 18-decimal resolution of the arithmetic; so all outstanding token B can always be sold back down the curve. Donations to the vaults never break this.",
 ["histories","inputs","configurations"], "all slopes and initial prices, all trade sequences by any number of users, including partial fills, exhaustion, resale to zero and donations",
 "Unit and property tests check single trades from one state; solvency is an invariant over whole histories of trades whose rounding errors accumulate.",
 [LIN, DFS], [("rounding of b_start up and b_end down", LIN), ("ceiling of b_end when selling", LIN), ("directional sqrt", DFS)],
 ["vault balances after every instruction, compared with an exact big-integer integral"])
prop("C09", "No sequence of linear-curve trades makes a risk-free profit",
 "Starting from any reachable state of a linear-price pool, no sequence of buys and sells that leaves a trader with at least as many token B as before leaves him with more token A than before, beyond one smallest unit (of token A or token B) per partially filled trade. In particular an immediate buy-then-sell or sell-then-buy never gains, and splitting a trade into several trades in the same direction never pays out more than the single trade.",
 ["histories","inputs","configurations"], "all parameter choices, all start states (also ones reached through dust and donations), all attacker sequences",
 "The unit tests try a handful of round trips; profit comes from rounding at particular magnitudes and from sequences.",
 [LIN, DFS], [("pool-favouring rounding in swap_a_to_b and swap_b_to_a", LIN)],
 ["trader balances over histories"])
prop("C10", "Linear-curve trades are priced by the documented price line",
 "Each linear-curve trade pays the trader never more than the exact integral of price = slope*b + initial price between the positions before and after the trade, and never less than that by more than one smallest output unit, one token B position unit when selling, nine significant digits of the square root the position is computed from, and the 18-decimal resolution of the arithmetic; a trade that exhausts a vault is rounded by at most half a unit. A trade whose exact output exceeds those tolerances is accepted, except that buying a rest worth less than one token A may be refused.",
 ["inputs","configurations"], "all slopes and initial prices (as fractions of 64-bit integers), all vault balances and trade sizes, both directions",
 "Existing tests compare a few chosen curves with hand-computed values; accuracy must hold at all magnitudes of parameters and balances.",
 [LIN, DFS], [("amt_a_locked_at_b_value_quadratic", LIN), ("b_value_with_amt_a_locked_quadratic", LIN), ("solve_quadratic_positive_root", LIN)],
 ["trade results against exact big-integer integral and square root"])
prop("C11", "Trades beyond a linear curve's ends are filled partially and fairly",
 "Buying more than the pool has left hands out exactly the whole remaining token B and takes only the token A the curve requires for it (never more than offered); selling more than is outstanding hands out exactly the whole token A vault and takes only the token B down to position zero, the amount taken being rounded to the nearest unit. The untaken input stays with the trader, and a trade within the pool's capacity is taken in full.",
 ["inputs","histories"], "all trade sizes around and beyond both ends of the curve, all parameter choices",
 "The ends of the curve are checked on a few hand-picked examples only, without token movements.",
 [LIN, PROC], [("maximum_a_remaining_for_swap_a_to_b", LIN), ("b_end_is_negative branch", LIN), ("source_amount_swapped used for the transfer", PROC)],
 ["ledger before/after swaps"])
prop("C12", "Linear pools admit no deposits, withdrawals, fees or new pool tokens",
 "On a linear-price pool every deposit and withdrawal instruction fails whatever its amounts and accounts, a swap charges no fee and mints no pool token, and the pool token supply never changes after creation. Hence its liquidity changes only through swaps.",
 ["inputs","histories"], "all deposit and withdrawal instructions with all amounts (also zero and maximal), at all pool states including empty vaults and zero pool token supply",
 NO_E2E+"; the lock-down depends on several cooperating functions returning nothing.",
 [LIN, PROC, LIB], [("allows_deposits false, conversions return None", LIN), ("zero fees hard-coded", LIB)],
 ["result of every instruction on linear pools", "pool mint supply"])
prop("C13", "Constant-price pools trade at exactly the fixed price",
 "On a constant-price pool a swap of token A for B delivers floor(net input / price) and takes only that multiple of the price plus fees; a swap of B for A takes the whole input and delivers net input times price, where net input is the input less fees. A swap succeeds exactly when this output is positive, meets the minimum and is available in the vault, the user has the input and all resulting balances fit 64 bits.",
 ["inputs","configurations"], "all prices, amounts, fees, vault balances, both directions",
 "Property tests cover the bare formula but not fees, token movements, acceptance or extreme prices together.",
 [CPR, BASE, PROC], [("ConstantPriceCurve::swap_without_fees", CPR), ("SwapCurve::swap", BASE)],
 ["ledger before/after swaps"])
prop("C14", "Trading fees are charged exactly and reach the right accounts",
 "Each swap charges a trade fee and an owner fee of floor(input*numerator/denominator), at least one unit when the rate is non-zero, both taken from the input side and left in the vault, the first wholly for liquidity providers. The owner fee is paid as newly minted pool tokens worth at most that fee and at most one pool token unit (and the fixed-point precision; stable curve: balances up to a millionfold apart) less, credited to the pool's fee account except for the host's configured share (minimum one when non-zero), which goes to the host account when one is given; no other pool tokens are minted by a swap.",
 ["inputs","configurations"], "all fee fractions, amounts, pool states, with and without host account, on every curve that takes fees",
 "Fee unit tests check single numbers; the conversion to pool tokens, host split and token movements are never executed.",
 [FEE, BASE, PROC], [("calculate_fee", FEE), ("SwapCurve::swap fee debit", BASE), ("owner fee to pool tokens, host split", PROC)],
 ["ledger before/after swaps", "pool mint supply"])
prop("C15", "Withdrawal fees are charged exactly, and never on the fee account itself",
 "A two-sided withdrawal moves floor(amount*numerator/denominator) pool tokens (at least one when the rate is non-zero and the amount positive) to the fee account and burns the rest; a single-sided withdrawal burns the pool tokens its payout is worth and moves the same fraction of that, on top, to the fee account. Withdrawing from the fee account itself costs no fee.",
 ["inputs","configurations"], "all fee fractions and amounts, withdrawals from ordinary accounts and from the fee account",
 NO_E2E+"; withdraw fees exist only in the processor.",
 [PROC, FEE], [("owner_withdraw_fee", FEE), ("fee account exemption", PROC)], ["ledger before/after withdrawals"])
prop("C16", "Liquidity providers never lose value to anyone's operation",
 "For every curve and every history of swaps, deposits and withdrawals by others, the value of a remaining pool token measured by the curve's own invariant (constant price: A + price*B; constant product: sqrt(A*B); offset: sqrt(A*(B+offset)); stable: D) never decreases, apart from sub-unit rounding of the integer balances (constant price: one unit of total value; stable: two smallest units of the balance paid out and the solver's error in D, balances at most a millionfold apart) and the documented fixed-point precision (relative 1e-11, twelve decimals of a fraction under a square root). Owner fees dilute liquidity providers by no more than the fee just collected.",
 ["histories","inputs","configurations"], "all operation histories, amounts, fees, curve parameters and pool token supplies",
 "Curve property tests check swaps, deposits and withdrawals separately and without fees, supplies and accounts; value can leak through their combination.",
 [PROC, BASE, CPR, CPD, OFF, STB], [("Floor/Ceiling rounding choices", CALC), ("trading fee on half of single-sided amounts", BASE)],
 ["vault balances and pool token supply after every instruction"])
prop("C17", "Two-sided deposits and withdrawals are proportional to the pool",
 "A two-sided deposit takes, and a two-sided withdrawal pays, for each token the share of the pool (constant product and stable: of that vault; constant price: half of the pool's value, rounded down to whole units, on each side, capped by the vault) that the pool tokens (after withdrawal fee) represent, rounded against the user by less than one smallest unit, or two for constant price. An operation whose share of a token is below one unit (constant price: zero) is refused rather than executed one-sidedly or at a full unit, except that a withdrawal may skip a token whose vault is empty; and offset pools accept withdrawals but no deposits.",
 ["inputs","histories"], "all pool token amounts, supplies, vault balances (also zero), fees and curve parameters",
 NO_E2E+"; only bare conversion formulas are tested.",
 [PROC, CPR, CPD, STB, OFF], [("pool_tokens_to_trading_tokens", CALC), ("zero checks", PROC)], ["ledger before/after"])
prop("C18", "Single-sided deposits and withdrawals match swap-plus-deposit economics",
 "A single-sided deposit mints, and a single-sided withdrawal burns, the pool tokens given by the curve's formula (constant price: share of total value; constant product: supply*(sqrt(1+x)-1) resp. supply*(1-sqrt(1-x)); stable: relative change of D) applied to a deposited amount less the trading fee on half of it, or to a withdrawn amount plus the trading fee that must be paid to receive half of it (rounded up), rounded against the user, within the documented fixed-point precision (stable: balances at most a millionfold apart). It never gives the user a better deal than the exact formula beyond that precision.",
 ["inputs","configurations"], "all amounts, sides, supplies, vault balances, fees, curve parameters",
 "Only conversions with moderate values and 0.5 percent tolerance are tested, without fees and token movements.",
 [BASE, CPR, CPD, STB, PROC], [("SwapCurve::deposit_single_token_type / withdraw_single_token_type_exact_out", BASE)], ["ledger before/after", "exact big-integer formulas"])
prop("C19", "Constant-product and offset swaps follow the product rule exactly",
 "A constant-product swap delivers the largest amount that keeps the product of the vault balances (after fees are set aside) from falling and takes the smallest input that pays for it, and an offset swap does the same with the offset added to token B. The offset is never paid out: output beyond the real vault balance fails; a swap that would leave less than one unit in the vault may be refused.",
 ["inputs","configurations"], "all balances, offsets, amounts and fees up to the 64-bit limits",
 "Property tests restrict the ranges and skip fees and real vault limits.",
 [CPD, OFF, BASE], [("constant_product::swap ceiling division", CPD), ("offset on side B", OFF)], ["ledger before/after swaps"])
prop("C20", "Stable swaps follow the amplified invariant and never lower it",
 "For balances at most about a thousandfold apart, a stable swap's output equals the solution of the stable-swap invariant equation for the pool's amplification within two smallest units and the solver's own rounding of D, does not let the invariant D of the vault balances fall by more than one rounding unit, and is symmetric under exchanging the tokens. For any balances the output never exceeds the vault; a swap that leaves at most four units in the vault may be refused.",
 ["inputs","configurations"], "all amplification values for which the solver is defined, balances of any magnitude and imbalance, all amounts",
 "Tests compare with a Python simulation for a limited range of amounts and amplifications.",
 [STB], [("compute_d, compute_new_destination_amount Newton iterations", STB)], ["swap results against an exact big-integer solver"])
prop("C21", "Pool state has one fixed layout and decodes losslessly",
 "Encoding a pool state and decoding it returns the same state for every field value and curve type, at the published offsets (version 1, flag, bump, program, vaults, mint, mints, fee account, eight fees, curve type, 32 parameter bytes, 324 bytes in all, little endian). Bytes of any other length, version, flag value, uninitialized flag or unknown curve type are refused; parameter bytes the curve type does not use are ignored.",
 ["inputs"], "all field values, all byte strings",
 "One fixed structure is packed and unpacked in the tests.",
 [ST, BASE, FEE, LIN, CPR, OFF, STB, "app/src/index.ts"], [("Pack implementations", ST), ("SwapVersion", ST)], ["encoded bytes", "decode results"])
prop("C22", "Fixed-point arithmetic stays within its error and rounding bounds",
 "Fixed-point addition, subtraction, multiplication, division, floor, ceiling, comparison and conversion agree with exact rational arithmetic within one unit in the 18th decimal (division: or half a unit in the dividend's last decimal; conversion to the twelve-decimal format: within its last decimal; products and quotients whose scaled intermediate exceeds 256 bits: whole units, relative 2^-68, or no result). Overflow, underflow and division by zero are reported as absence of a result instead of wrapping or crashing. The square root asked to round down never exceeds, and asked to round up never falls below, the true root, with a relative error below 2^-30 plus one unit in the 18th decimal.",
 ["inputs"], "all 256-bit operands for which a result is representable, both rounding directions",
 "A few dozen constants and a proptest over small ranges.",
 [DFS], [("checked_mul/checked_div", DFS), ("sqrt_u64", DFS)], ["results against exact wide-integer arithmetic"])
prop("C23", "Owner constraints bind pool creation in constrained deployments",
 "When creation constraints are configured, a pool is created only if its fee account belongs to the configured owner, its curve type is one of the allowed ones, every constrained fee has the required denominator, trade, owner-trade and owner-withdraw fee numerators are at least the required ones, and the host fee equals the required fraction; and every pool satisfying these and the ordinary creation rules is created; the production build enforces its own published constraints this way.",
 ["inputs","configurations"], "all constraint sets, fee combinations and curve types",
 "Tests check validate_fees on one value set and validate_curve on one type, never creation itself.",
 [CON, PROC], [("validate_fees / validate_curve / owner key check", CON)], ["result of constrained initialization"])
prop("C24", "Linear trades are monotone: paying more never yields less",
 "From the same state of a linear-price pool a larger input never yields a smaller output or a smaller amount taken, in either direction. After a buy the same-size buy never yields more than before it, and after a sell never less, up to the documented curve precision and one smallest unit, trades that exhaust the vault aside.",
 ["inputs","configurations"], "all pairs of trade sizes from all states and parameters",
 "Monotonicity is a relation between pairs of executions, which example tests do not compare.",
 [LIN, DFS], [("sqrt_u64 truncation", DFS), ("swap_a_to_b / swap_b_to_a", LIN)], ["pairs of trades from the same state"])
prop("C25", "Trade direction follows the vault the tokens go into",
 "The curve side of a trade or single-sided operation is determined only by which of the pool's two vaults, as recorded at creation, receives or pays the tokens: presenting the accounts the other way round trades in the other direction, never at the mirrored price. Instructions are recognized by their published eight-byte names and take their integer arguments in published order, little endian; unknown names and truncated arguments are refused.",
 ["inputs","configurations"], "both directions on every curve, all instruction names and argument bytes",
 NO_E2E+"; unit tests pass the direction explicitly.",
 [PROC, LIB], [("trade_direction selection", PROC), ("instruction dispatch", LIB)], ["ledger before/after", "results for raw instruction bytes"])
prop("C26", "Every instruction completes within a bounded amount of work",
 "The work of one instruction (basic blocks of the program and its arithmetic executed, excluding the token program) is bounded by a constant independent of amounts, balances and curve parameters, less than twice the largest cost (and a few hundred blocks) of today's code, so no trade becomes impossible by exceeding the compute budget.",
 ["inputs"], "all parameter magnitudes, including those that make iterative solvers converge slowest",
 "The README says only the validator test can notice compute overflow; it runs a handful of trades.",
 [DFS, STB, LIN], [("bounded Newton and Babylonian iterations", STB), ("64-bit square root", DFS)], ["coverage callbacks per basic block of the program, counted per instruction"])

prop("C27", "Equal terms for equal pools: outcomes depend only on the pool's numbers",
 "The result of a swap, deposit or withdrawal (accepted or refused, with which error, and every amount moved, minted and burned) is a function of the pool's curve, fees, two vault balances and pool token supply and of the instruction's amounts. Who the user is, the addresses of pool, mints and accounts, their owners, delegates, decimals and lamports, other pools, the pool's past, the split of pool tokens among holders, and accounts appended to the instruction make no difference, provided the accounts taken from hold enough; the one exception is that withdrawals from the pool's own fee account cost no fee.",
 ["histories","inputs","configurations"], "all operations, curves, fees, amounts and pool states; users, mints and pools of any kind and age",
 NO_E2E+"; a condition on a key, an owner or an unrelated balance can hide in any handler.",
 [PROC, LIB, BASE], [("handlers and account roles", PROC), ("dispatch", LIB)], ["pairs of executions in unlike settings, ledger differences by role, error codes"])
prop("C28", "A refusal names its true cause",
 "When a request that would succeed is spoiled by one known defect it is refused with the error documented for that defect (the caller's limit: ExceededSlippage; a wrong authority, vault, pool mint, fee account or token program: the error naming it; a missing signature, foreign or underfunded or frozen user account: the token program's or runtime's own error; at creation the error naming the broken condition), under the published error numbers; with two defects the error is one of the two. Clients decide by it whether to retry.",
 ["inputs","configurations"], "all instructions, curves, amounts and defects, alone and in pairs",
 NO_E2E+"; the error paths of the processor are not executed at all.",
 [PROC, P+"error.rs", LIB], [("account checks", PROC), ("limit checks", PROC), ("SwapError numbering", P+"error.rs")], ["error code and last cross-program call of refused instructions"])

prop("C29", "A curve's normalized value is the value of the balances it is given",
 "The normalized value of a pool's balances has the dimension of tokens and is: for constant product and offset the geometric mean of the (for offset: virtual) balances to twelve decimals; for constant price the half of A + price*B rounded down; for stable the whole-number invariant D of the amplified equation within the solver's rounding; for the linear curve the leading 32 bits of B plus the curve position of A, within the documented nine digits. The linear curve's leading bits aside, it is never lowered by adding tokens nor, beyond the stated rounding, by a swap of the same curve, it does not depend on which token is called A on the symmetric curves, scales with the pool, and is absent only where the intermediate exceeds the number format.",
 ["inputs"], "all balances and curve parameters, including empty sides and 64-bit extremes",
 "Proptests compare the values before and after a swap with each other, never with the value itself.",
 [CPD, CPR, OFF, STB, LIN], [("normalized_value", CPD), ("normalized_value", CPR), ("normalized_value / compute_d", STB), ("normalized_value", LIN)], ["results of the public curve objects"])
prop("C30", "No closed sequence of operations takes value out of a fee-taking pool",
 "A user who performs any sequence of swaps, two- and single-sided deposits and withdrawals on a constant-price, constant-product, offset or stable pool and then restores the pool tokens he holds and buys back what he lacks never ends with as much of everything and more of something, alone or together with the fee account's owner and the hosts, beyond rounding dust: a fraction of 1e-10 of the vaults per operation for product and offset, two units of value per operation for constant price, a few units of the invariant per operation for stable (each enlarged by the factor by which the supply changed meanwhile).",
 ["histories","inputs","configurations"], "all sequences of operations, curves, fees and pool sizes",
 "Tests compare single conversions; an attack combines several whose roundings or prices disagree.",
 [PROC, BASE, CPD, CPR, OFF, STB, FEE], [("all operations", PROC), ("curve formulas", CPD), ("single-sided formulas", CPR), ("compute_d", STB)], ["balances of the attacker and his helpers at the beginning and the end of the sequence"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for o in out: f.write(json.dumps(o)+"\n")
print(len(out))
