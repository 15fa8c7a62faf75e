#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing it)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "programs/token-bonding-curve/src/"
def F(*n): return [S + x for x in n]
P = []
def prop(id, title, statement, over, quant, why, files, mech, observe, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, state=state or []))

RUN = "transactions are run by the real program and the real spl-token program under a small model of the Solana runtime (svm.rs), which is trusted"
ORA = "the oracle is written from the documented formulas on 512-bit integers, independent of the code"

prop("C01", "A linear bonding curve pool is always solvent",
 "In every state a pool on the linear price curve can reach by trading, the A tokens it holds are worth at least the area under the price line over the net amount of B it has sold. So however the trades were cut up and ordered, all B tokens sold can be bought back at the prices of the curve.",
 ["histories", "configurations"], "every sequence of buys and sells by any number of traders (plus A sent straight to the vault), for every slope and initial price accepted at initialization",
 "The unit tests run single swaps or one round trip with chosen numbers; insolvency comes from rounding that accumulates over many swaps and depends on the parameters.",
 F("curve/linear_price.rs", "processor.rs"),
 [("rounding of the amount bought and sold towards the pool", "linear_price.rs swap_a_to_b, swap_b_to_a, amt_a_locked_at_b_value_quadratic"), ("moving exactly the amounts computed", "processor.rs process_swap")],
 ["vault balances after every transaction"],
 "explicit-state model checking of the real program: BFS over all trade histories to closure, exact-integer invariant",
 "Exhaustive to closure for 16 small parameter sets and to a depth for 8 realistic ones; " + RUN + ".")
prop("C02", "A linear bonding curve never trades better than its price line",
 "No swap on the linear price curve gives more B for the A taken, or more A for the B taken, than the exact area under the price line between the states before and after it, up to the documented 18-decimal resolution of the arithmetic. The one sale that takes out the entire collateral may settle the position outstanding to the nearest whole token.",
 ["inputs", "configurations"], "every collateral, bonded supply, order size, direction, slope and initial price",
 "Tests compare a few dozen chosen swaps with precomputed results; the property needs each rounding to go the right way for every combination.",
 F("curve/linear_price.rs", "dfs_precise_number.rs"),
 [("quadratic solution and its rounding directions", "linear_price.rs solve_quadratic_positive_root"), ("area under the line", "linear_price.rs amt_a_locked_at_b_value_quadratic")],
 ["result of the swap calculation", "vault balances after a swap transaction"],
 "bounded exhaustive enumeration of pool states and orders on the real code against an exact square-root-free oracle, plus BFS over histories",
 "All states and orders of a dense small domain and of a boundary lattice over the whole u64 range; " + ORA + ".")
prop("C03", "A linear bonding curve does not short-change a trader",
 "Every swap on the linear price curve gives at least what the price line gives, less one base unit of rounding and the 9 significant digits the square root is documented to carry, and a swap worth at least one unit is not refused (unless what is left of the supply is priced too low to be told from zero). No swap makes the program abort.",
 ["inputs", "configurations"], "every collateral, bonded supply, order size, direction, slope and initial price",
 "Lost value or a refusal needs a particular magnitude of numbers; tests touch isolated points of a space of seven 64-bit numbers.",
 F("curve/linear_price.rs", "dfs_precise_number.rs"),
 [("precision of the square root and of division", "dfs_precise_number.rs sqrt_u64, checked_div"), ("quadratic solution", "linear_price.rs solve_quadratic_positive_root")],
 ["result of the swap calculation", "vault balances after a swap transaction"],
 "bounded exhaustive enumeration of pool states and orders on the real code against exact error bounds, plus BFS over histories",
 "All states and orders of a dense small domain and of a boundary lattice over the whole u64 range; " + ORA + ".")
prop("C04", "Orders too large for a linear pool are filled partially and charged fairly",
 "A swap on the linear price curve takes at most the amount offered, takes all of it unless the other side of the pool is exhausted, and then takes only the price of what was left (plus one unit of rounding and the resolution of the square root). It never takes something for nothing or gives something for nothing, and never more than the pool has.",
 ["inputs", "configurations"], "every collateral, bonded supply, order size, direction, slope and initial price",
 "The clipping paths are exercised by three tests with fixed numbers; which path is taken depends on comparisons of rounded quantities.",
 F("curve/linear_price.rs", "curve/base.rs", "processor.rs"),
 [("clipping of buys", "linear_price.rs maximum_a_remaining_for_swap_a_to_b"), ("clipping of sells", "linear_price.rs swap_b_to_a"), ("refund of the unused fee", "base.rs SwapCurve::swap")],
 ["result of the swap calculation", "user and vault balances after a swap transaction"],
 "bounded exhaustive enumeration of pool states and orders on the real code, plus BFS over histories",
 "All states and orders of a dense small domain and of a boundary lattice over the whole u64 range; " + ORA + ".")
prop("C05", "No sequence of operations makes a trader richer",
 "A trader who starts with tokens of one kind and holds no pool tokens at the end never ends up with more of that kind, nor with as much plus some of the other kind, whatever swaps, deposits and withdrawals they make in a pool nobody else touches meanwhile. (Pools on the stable curve, whose curve is only approximated, and linear sales that empty the collateral are covered by their own properties.)",
 ["histories", "configurations", "inputs"], "every sequence of operations with every amount, from every small pool state, for every curve family and fee; and every two-trade round trip at every magnitude",
 "Profit comes from combinations (deposit one side, swap, withdraw the other) whose rounding adds up the wrong way; the tests check single operations in isolation.",
 F("curve/constant_price.rs", "curve/constant_product.rs", "curve/offset.rs", "curve/linear_price.rs", "curve/base.rs", "processor.rs"),
 [("rounding in favour of the pool in each conversion", "curve/*.rs"), ("trade fee on single-sided operations", "base.rs deposit_single_token_type, withdraw_single_token_type_exact_out")],
 ["balances of the trader"],
 "explicit-state model checking of the real program: BFS to closure over all operation sequences, plus exhaustive round trips",
 "Closed exploration from every pool state with reserves up to 4 (5 thorough) and all amounts; round trips on a lattice over u64; " + RUN + ".")
prop("C06", "The limit given with an operation is respected exactly",
 "An operation given with limits (least acceptable output, most acceptable input) succeeds exactly when the amounts it really moves are within them, and then does exactly what it would have done without limits; otherwise it changes nothing. A deposit, withdrawal or swap stated in exact amounts moves exactly those amounts.",
 ["inputs", "configurations"], "every operation, amount and limit, on every curve family and fee setting",
 "Only a few fixed limits are tried per operation, far from the edge; an off-by-one or a limit compared with the amount before fees passes them.",
 F("processor.rs", "curve/base.rs"),
 [("slippage comparisons", "processor.rs process_swap, process_deposit_all_token_types, process_withdraw_all_token_types, process_deposit_single_token_type_exact_amount_in, process_withdraw_single_token_type_exact_amount_out")],
 ["balances of user and pool against the same operation without limits"],
 "bounded exhaustive enumeration of operations and limits, each run differentially on the real program",
 "Each operation in each explored state is run with ten values of each limit around the real amount; " + RUN + ".")
prop("C07", "No substitution of accounts harms the pool or anybody else",
 "Whatever accounts somebody passes to an operation in place of the right ones, if it succeeds then nobody else's tokens have decreased, the pool's reserves and pool-token supply changed exactly as in an honest operation of the same kind on that pool, and no program but the token program of the pool was invoked. Look-alike pools, vaults, mints and token programs are never accepted.",
 ["inputs", "configurations"], "every replacement of up to three (thorough: four) accounts of every operation by any account, including forged and look-alike ones, of another pool, of other users, and repeated ones",
 "Tests replace one account at a time by one wrong account; confusion attacks need particular combinations.",
 F("processor.rs", "instructions/swap.rs", "instructions/deposit_all_token_types.rs", "instructions/withdraw_all_token_types.rs", "instructions/deposit_single_token_type_exact_amount_in.rs", "instructions/withdraw_single_token_type_exact_amount_out.rs"),
 [("account checks common to all operations", "processor.rs check_accounts"), ("vault matching of swaps", "processor.rs process_swap"), ("choice of the side by the user's token", "processor.rs process_deposit_single_token_type_exact_amount_in, process_withdraw_single_token_type_exact_amount_out")],
 ["all token balances and supplies before and after", "programs invoked"],
 "exhaustive enumeration of account substitutions against the real program in a two-pool arena",
 "All substitutions of one and two accounts by every account of the arena (about 50), three by the 19 most dangerous; " + RUN + ".")
prop("C08", "Only a holder or its delegate can spend the holder's tokens",
 "An operation that takes tokens from an account succeeds only if the owner of that account, or a delegate allowed at least the amount taken, signed the transaction, and none of the accounts involved is frozen. Who signs never changes what the operation does.",
 ["inputs", "configurations"], "every operation with every signer, every owner, delegate and allowance of the accounts it takes from, and every frozen account",
 "Tests sign everything with the right key (or check one missing delegation); authority mistakes show only with the wrong signer or allowance.",
 F("processor.rs", "instructions/swap.rs", "instructions/deposit_all_token_types.rs", "instructions/withdraw_all_token_types.rs"),
 [("the user's authority used for transfers from and burns of the user's accounts", "processor.rs token_transfer, token_burn calls"), ("signer requirement", "instructions/*.rs user_transfer_authority")],
 ["success of the transaction and balances"],
 "exhaustive enumeration of signers, owners, delegations and frozen accounts against the real program",
 "Full product per operation; " + RUN + ".")
prop("C09", "A pool is created exactly when everything about it is right, as given",
 "Initialization succeeds exactly when the new pool's accounts, mints, vaults, authority, fees, curve parameters and initial amounts satisfy every documented requirement; a refused one changes nothing. An accepted one records precisely the accounts and terms given and mints the initial pool tokens to the creator's account, and does nothing else.",
 ["inputs", "configurations"], "every combination of faults in the set-up, every fee fraction, curve parameter and initial amount at the boundaries, through both the entry points and the processor",
 "Existing tests try a fault at a time on one kind of pool; a missing check for one curve, or one that another fault hides, is not seen.",
 F("processor.rs", "instructions/initialize.rs", "state.rs", "curve/fees.rs", "curve/linear_price.rs", "curve/constant_price.rs", "curve/offset.rs", "lib.rs"),
 [("checks of initialization", "processor.rs process_initialize"), ("fraction validity", "fees.rs validate"), ("parameter validity", "curve/*.rs validate, validate_supply")],
 ["success, bytes of the pool's account, all balances"],
 "exhaustive enumeration of fault combinations and parameter lattices against the real program, with a byte-exact oracle",
 "All sets of up to two (thorough: four) of about sixty faults on five kinds of pool; " + RUN + ".")
prop("C10", "A pool's terms never change",
 "Once a pool is created, its accounts, fees and curve stay as they are whatever happens to it afterwards, and it can never be initialized again, with the same or other terms.",
 ["histories", "inputs"], "every history of operations and every attempt at a second initialization, in any state of the pool, with any terms",
 "Tests attempt one second initialization right after the first, with the same accounts.",
 F("processor.rs", "state.rs", "instructions/initialize.rs"),
 [("refusal of an initialized account", "processor.rs process_initialize"), ("only initialization writes the record", "processor.rs")],
 ["bytes of the pool's account after every transaction"],
 "explicit-state model checking of the real program over histories, plus exhaustive re-initialization attempts",
 "Histories to depth 4 (thorough 5); re-initialization with a dozen kinds of terms in seven states of seven kinds of pool; " + RUN + ".")
prop("C11", "Fees are exactly the stated fractions and go where they belong",
 "Every operation charges exactly the documented fees: the stated fraction of the amount rounded down, but at least one unit where the fraction is not zero, nothing where it is zero. The trade fee stays in the pool, the owner's fee is paid to the fee account in pool tokens of equal worth with the host's share of it going to the host, a withdrawal fee goes to the fee account (which itself pays none), and a single-sided operation pays the trade fee on half of it. Where the fee account has been closed nothing is paid to it, and everything else goes on.",
 ["inputs", "configurations"], "every combination of the four fee fractions, operation, amount, host account and curve",
 "Tests use a couple of fee settings and compare with the program's own formulas; an amount or fraction near rounding, or a fee charged to the wrong party, needs the whole product.",
 F("curve/fees.rs", "curve/base.rs", "processor.rs"),
 [("fee arithmetic", "fees.rs calculate_fee"), ("fees of swaps", "base.rs SwapCurve::swap"), ("payment of owner and host fees", "processor.rs process_swap"), ("withdrawal fee", "processor.rs process_withdraw_*")],
 ["balances of user, pool, fee account and host"],
 "bounded exhaustive enumeration of fee settings and operations, lockstep of the real program with a reference model",
 "Every pair of about 13 (thorough 22) fractions in every fee position; each accepted transaction is compared with the model in every balance; also differentially on all curves (fee pool against free pool).")
prop("C12", "Pools that take no liquidity take none, in any state",
 "A pool on the linear price curve refuses every deposit and every withdrawal, and a pool on the offset curve refuses every deposit, of both kinds and in every state of the pool, leaving everything unchanged.",
 ["histories", "inputs", "configurations"], "every state of the pool (including one whose pool tokens are all burned), every amount, fee and curve parameter",
 "Tests try one deposit in the initial state of one pool; a path that opens only in another state or for the other kind of deposit is not seen.",
 F("processor.rs", "curve/calculator.rs", "curve/linear_price.rs", "curve/offset.rs", "curve/base.rs"),
 [("allows_deposits", "calculator.rs, linear_price.rs, offset.rs"), ("its use by both deposits", "processor.rs process_deposit_all_token_types, process_deposit_single_token_type_exact_amount_in"), ("linear conversions refuse", "linear_price.rs pool_tokens_to_trading_tokens, withdraw_single_token_type_exact_out")],
 ["success and balances"],
 "exhaustive enumeration of pool states, fees and amounts on the real program, plus BFS over histories including burns",
 RUN[0].upper() + RUN[1:] + ".")
prop("C13", "Nothing dilutes the holders of pool tokens",
 "No swap, deposit or withdrawal, by anyone, lowers the value of the reserves behind each outstanding pool token (the worth of both reserves at the pool's price on a constant price curve; the square root of the product, with the offset, on the others). Converting the owner's fee may round its pool tokens up by one.",
 ["inputs", "histories", "configurations"], "every operation with every amount from every pool state, pool-token supply and fee, and every history of several parties",
 "Property tests in the code sample each calculator alone; the value per token depends on fees, minting and rounding put together by the processor.",
 F("curve/constant_price.rs", "curve/constant_product.rs", "curve/offset.rs", "curve/base.rs", "processor.rs"),
 [("rounding directions of conversions", "curve/*.rs pool_tokens_to_trading_tokens"), ("minting and burning", "processor.rs")],
 ["vault balances and pool-token supply before and after every transaction"],
 "bounded exhaustive enumeration of states and operations on the real program plus BFS over histories, exact value invariant",
 "Value compared on 512-bit integers; single-sided operations on the product curves are allowed the 12-decimal precision of their square root; " + RUN + ".")
prop("C14", "A pool's record is read back exactly as it was written",
 "Storing a pool's record and reading it back gives the same pool for every value of every field, in the documented byte layout, and different pools have different bytes. Anything that is not the complete record of a live pool (too short, unknown version or curve, uninitialized, truncated) is refused, not misread.",
 ["inputs"], "every field of the record varied over its boundary values, every length, every version, curve-type and flag byte, every single-byte change",
 "Round-trip tests use one value per field; a field cut short or two swapped shows only for values that differ in the right bytes.",
 F("state.rs", "curve/fees.rs", "curve/base.rs", "curve/linear_price.rs", "curve/constant_price.rs", "curve/offset.rs", "curve/stable.rs"),
 [("record layout", "state.rs SwapV1 pack_into_slice, unpack_from_slice"), ("curve layout", "base.rs SwapCurve, curve/*.rs pack_into_slice, unpack_from_slice"), ("versioning", "state.rs SwapVersion")],
 ["bytes written, fields read"],
 "exhaustive enumeration of record mutations against an independent byte-level codec",
 "All pairs of fields over boundary values, all bytes and all lengths; the layout oracle is written from the documentation.")
prop("C15", "Order size does not pay: larger orders get no less, splitting no more",
 "On every curve but the stable one, a larger order never gets less out of the same pool than a smaller one, and an order cut in two never gets more in total than the same order placed at once. (With a trading fee it may save the rounding of the fee, and on the linear curve that of the square root; a sale on a linear curve too flat for its 18 decimals, with a slope below 1e-15, may gain the rounding of the position.)",
 ["inputs", "configurations"], "every pool state, every order and every way of cutting it in two, for every curve family and parameter",
 "A relation between three runs of the calculation; the existing tests compare single runs with constants.",
 F("curve/linear_price.rs", "curve/constant_price.rs", "curve/constant_product.rs", "curve/offset.rs"),
 [("rounding of swap results", "curve/*.rs swap_without_fees")],
 ["result of the swap calculation"],
 "bounded exhaustive enumeration of states, orders and splits on the real code, relational oracle",
 "All triples of a dense small domain and of a boundary lattice over u64.")
prop("C16", "The fixed-point arithmetic is exact to its stated precision",
 "Each operation of the program's decimal numbers gives the exact result rounded the way it is documented to (division and multiplication to the nearest unit of 18 decimals, floor and ceiling exactly, roots to 9 decimals on the requested side), in its documented range, or reports that it cannot. None aborts or wraps around.",
 ["inputs"], "every pair of operands from a lattice with every size of number up to the full 256 bits",
 "Tests check a few values per operation; overflow fallbacks and carries are reached only by operands of particular sizes.",
 F("dfs_precise_number.rs"),
 [("overflow fallbacks", "dfs_precise_number.rs checked_mul, checked_div"), ("root rounding", "dfs_precise_number.rs sqrt_u64, sqrt_babylonian"), ("conversion", "dfs_precise_number.rs to_spl_precise_number, to_imprecise")],
 ["results of the operations"],
 "exhaustive enumeration of operand pairs over a size-complete lattice, against exact 512-bit integers",
 "Exhaustive over the lattice (every bit length with neighbours and odd patterns), not over all 2^512 pairs; division is judged for numerators below 2^196 units, its documented domain.")
prop("C17", "A production deployment accepts only pools within its constraints",
 "Given deployment constraints, a pool is created only if its curve is one of the allowed kinds, each of its fees is at least the required fraction on the same denominator with the same host share, and its fee account belongs to the configured owner; every pool within the constraints is accepted. The production build of the program has such constraints and cannot be initialized around them.",
 ["configurations", "inputs"], "every set of allowed curves, every fee around the required ones, every owner of the fee account, in the ordinary and in the production build",
 "The production build is compiled by none of the tests; one unit test compares a few fee settings.",
 F("constraints.rs", "processor.rs", "lib.rs"),
 [("constraint checks", "constraints.rs validate_curve, validate_fees"), ("their use", "processor.rs process_initialize"), ("compiled-in constraints", "constraints.rs SWAP_CONSTRAINTS")],
 ["success of initialization and the pool's account"],
 "exhaustive enumeration of constraints, fees, curves and owners against the real program, including its production build",
 "Built a second time with the production feature and a fixed owner address; " + RUN + ".")
prop("C18", "Swaps follow the exact formula of their curve",
 "On the constant price, constant product and offset curves, a swap gives exactly the amount of the documented formula rounded down, takes exactly what that amount costs (never more than offered), charges the fees on top, and is refused exactly when the formula gives nothing, the pool cannot pay, or the numbers do not fit.",
 ["inputs", "configurations"], "every pair of reserves, order, direction, curve parameter and fee",
 "Tests check some tens of points and sample rounding inequalities which many wrong formulas satisfy.",
 F("curve/constant_price.rs", "curve/constant_product.rs", "curve/offset.rs", "curve/base.rs", "processor.rs"),
 [("constant price formula", "constant_price.rs swap_without_fees"), ("constant product formula", "constant_product.rs swap"), ("virtual reserve", "offset.rs swap_without_fees"), ("fees around it", "base.rs SwapCurve::swap")],
 ["all balances after a swap transaction"],
 "bounded exhaustive enumeration of swaps, lockstep of the real program with an exact reference model",
 "All reserves and orders of a dense small domain and of a boundary lattice over u64, with eight fee settings; each accepted transaction is compared with the model in every balance.")
prop("C19", "Tokens are conserved by every history of operations",
 "Over every history of operations by several parties, no A or B token appears or disappears, the outstanding pool tokens always equal their recorded supply, only the accounts named in an operation change, and each operation moves just what it is documented to move. A refused operation changes nothing.",
 ["histories", "configurations"], "every interleaving of operations of two users and the fee owner (with donations and burns), on every curve family and fee setting",
 "Tests check the balances of a few accounts after one operation.",
 F("processor.rs", "curve/base.rs"),
 [("transfers, mints and burns", "processor.rs token_transfer, token_mint_to, token_burn and their uses")],
 ["all token accounts and mints after every transaction"],
 "explicit-state model checking of the real program: BFS over histories, conservation and lockstep with a reference model on every transition",
 "Depth 3 (thorough 5) with about 30 operations per state; " + RUN + ".")
prop("C20", "Every holder of pool tokens can leave with a fair share, in any order",
 "Holders of pool tokens of a pool that allows withdrawals can redeem them for exactly their share of both reserves (on the offset curve counting the virtual reserve, as far as the pool has it), rounded down, less the withdrawal fee, in whatever order they leave; a withdrawal is refused only when the share is less than one unit of a reserve. The last to leave gets everything that remains. Nobody can keep them from leaving, the owner of the fee account by closing it included.",
 ["histories", "configurations", "inputs"], "every order of leaving, split of the pool tokens, pair of reserves, curve and fee",
 "Tests make one withdrawal of a chosen amount; who leaves last and what dust does is never exercised.",
 F("processor.rs", "curve/constant_product.rs", "curve/offset.rs", "curve/stable.rs"),
 [("share of the reserves", "constant_product.rs pool_tokens_to_trading_tokens"), ("payment and burning", "processor.rs process_withdraw_all_token_types"), ("clipping to the reserve", "processor.rs process_withdraw_all_token_types")],
 ["balances of the leaving holder and of the pool"],
 "exhaustive enumeration of exit histories on the real program against the exact share",
 "All orders of three holders and eight splits over a lattice of reserves; " + RUN + ".")
prop("C21", "Stable pools follow the stableswap invariant",
 "In a pool on the stable curve, no swap pays more than two units beyond the stableswap invariant with the pool's amplification, none pays less than it by more than the rounding, single-sided deposits and withdrawals mint and burn pool tokens in proportion to the change of the invariant, and none of them is refused in an ordinary pool. Over a history the invariant per pool token does not fall beyond these tolerances.",
 ["inputs", "histories", "configurations"], "every reserve and amount at all sizes and proportions, every amplification, fee and sequence of operations",
 "The tests compare with a simulation at sampled points that needs an interpreter not present, or check that a sum does not decrease for sampled values.",
 F("curve/stable.rs", "curve/base.rs", "processor.rs"),
 [("iteration for the invariant", "stable.rs compute_d, calculate_step"), ("new reserve", "stable.rs compute_new_destination_amount"), ("liquidity", "stable.rs deposit_single_token_type, withdraw_single_token_type_exact_out")],
 ["balances and pool-token supply after each transaction"],
 "bounded exhaustive enumeration of states and operations plus BFS over histories on the real program, against an exact solution of the invariant",
 "The invariant is solved to 32 binary digits by bisection on 512-bit integers; tolerances are those of an iteration on whole units and are stated in the evidence.")
prop("C22", "Every request does what it says or nothing",
 "Every request is either refused without any effect or is one of the documented operations, with each number and account taken from its documented place; any request that is cut short, unknown, or has accounts missing or not marked as the operation needs is refused. Nothing a caller puts in a request makes the program misread it as something else, and additional accounts or bytes change nothing.",
 ["inputs"], "every operation with every number replaced by boundary values, every truncation and unknown selector, every missing, surplus, unsigned or read-only account",
 "Tests build requests with the client library, always well formed, and with the same few numbers.",
 F("lib.rs", "instructions/initialize.rs", "instructions/swap.rs", "instructions/deposit_all_token_types.rs", "instructions/withdraw_all_token_types.rs", "instructions/deposit_single_token_type_exact_amount_in.rs", "instructions/withdraw_single_token_type_exact_amount_out.rs"),
 [("dispatch and argument order", "lib.rs"), ("account order handed to the processor", "instructions/*.rs handler")],
 ["effect of the raw request on all accounts"],
 "exhaustive enumeration of request mutations on the real entry point, against the documented layout",
 RUN[0].upper() + RUN[1:] + ".")
prop("C24", "Deposits and withdrawals exchange pool tokens at the pool's exact ratio",
 "Deposits and withdrawals move exactly the documented amounts: two-sided ones the share of each reserve, rounded up when paid and down when received, single-sided ones the pool tokens given by the curve for the amount (rounded against the user), less the trade fee on half of it, and withdrawals less the withdrawal fee. They are refused exactly when an amount would be zero, exceed what is there, or not fit; a pool all of whose pool tokens are gone starts again with the initial supply.",
 ["inputs", "configurations"], "every pair of reserves, pool-token supply, amount, side, fee and curve parameter",
 "Tests use one pool state and sample inequalities; amounts next to a rounding step and edge states (no supply, empty reserve) are not covered.",
 F("curve/constant_price.rs", "curve/constant_product.rs", "curve/offset.rs", "curve/base.rs", "processor.rs"),
 [("two-sided conversions", "constant_product.rs, constant_price.rs pool_tokens_to_trading_tokens"), ("single-sided conversions", "constant_product.rs, constant_price.rs deposit/withdraw single"), ("operation", "processor.rs process_deposit_*, process_withdraw_*")],
 ["all balances after each transaction"],
 "bounded exhaustive enumeration of liquidity operations, lockstep of the real program with an exact reference model",
 "All reserves, supplies and amounts of a dense small domain and of a boundary lattice over u64; on the product curves the pool tokens of single-sided operations are compared within the 12-decimal precision of the square root.")

prop("C23", "A refused request says why",
 "Whenever a request breaks exactly one requirement, the program answers with the error documented for that requirement, under its documented number, and never aborts instead. A request refused only for the caller's limit says so, one refused because there is nothing to trade says that, and one for an operation the pool's curve does not have says that.",
 ["inputs", "configurations"], "every requirement of every operation broken alone, on every curve, fee setting and pool state, through every way in",
 "No test of the operations is active, so no error of the program as a whole is tested; clients decide on retries and messages by these numbers.",
 F("error.rs", "processor.rs", "constraints.rs", "curve/calculator.rs", "curve/linear_price.rs", "curve/fees.rs"),
 [("error numbers", "error.rs SwapError"), ("checks of the accounts", "processor.rs check_accounts, process_initialize, process_swap"), ("limits and empty results", "processor.rs process_*"), ("parameters", "curve/*.rs validate, validate_supply; fees.rs validate; constraints.rs")],
 ["error of the refused transaction"],
 "exhaustive enumeration of single faults and of amounts over pool states on the real program, against the documented reasons",
 "All single faults of the initialization, every account of every operation replaced, and the limit and zero refusals over a grid of pool states; " + RUN + ".")
prop("C25", "A pool treats its two tokens alike",
 "In a pool on the constant product or stable curve (or at the constant price of one) it makes no difference which token is called A and which B. A state and an operation with the two tokens exchanged give exactly the same result with the tokens exchanged; on the stable curve, in ordinary proportions of the reserves, up to the units its iteration rounds.",
 ["inputs", "configurations"], "every pair of reserves, supply, operation, amount, limit and fee setting",
 "Tests name one side or the other with chosen numbers and never compare the two.",
 F("curve/constant_product.rs", "curve/stable.rs", "curve/base.rs", "processor.rs"),
 [("choice of the sides", "processor.rs process_swap, process_deposit_single_token_type_exact_amount_in, process_withdraw_single_token_type_exact_amount_out"), ("formulas of both sides", "curve/constant_product.rs, curve/stable.rs")],
 ["all balances after each transaction and its mirror image"],
 "bounded exhaustive enumeration of states and operations, each run twice on the real program, once mirrored",
 "A dense small square and a lattice of large reserves; the relation needs no model of the formulas; " + RUN + ".")
prop("C26", "What an operation does depends on the pool and the amounts alone",
 "The same operation on a pool with the same terms, reserves and supply always has the same effect on the pool and the user, whoever asks for it, whatever else they, other users and other pools hold, at whatever addresses, with whatever decimals, delegates or other circumstances of the tokens. It makes no difference whether it comes through the program's entry point or its processor functions.",
 ["inputs", "configurations"], "every operation in every pool state under every irrelevant circumstance",
 "Tests run each operation in one fixed setting.",
 F("processor.rs", "lib.rs", "instructions/swap.rs", "instructions/deposit_all_token_types.rs", "instructions/withdraw_all_token_types.rs", "instructions/deposit_single_token_type_exact_amount_in.rs", "instructions/withdraw_single_token_type_exact_amount_out.rs"),
 [("operations", "processor.rs process_*"), ("ways in", "lib.rs, instructions/*.rs")],
 ["changes of the balances of pool and user after each transaction"],
 "bounded exhaustive enumeration of states, operations and circumstances on the real program, compared with the plain run",
 "19 circumstances times all operations over a grid of pool states on every curve; no model of the formulas is involved; " + RUN + ".")
prop("C27", "The library quotes what the program does",
 "What the program's public calculation functions return for the current reserves, supply and fees is exactly what the transaction then does: the amounts taken and given, the reserves after it and the fees of a swap, and the tokens of deposits and withdrawals. A swap that is quoted goes through, if the limit allows it, the accounts hold enough and the owner's fee can be converted; one that is not quoted is refused.",
 ["inputs", "configurations"], "every operation on every curve, fee setting, pool state and amount",
 "Tests use the calculations and (once) the processor separately.",
 F("curve/base.rs", "processor.rs", "curve/fees.rs", "curve/calculator.rs"),
 [("quote", "base.rs SwapCurve::swap, deposit_single_token_type, withdraw_single_token_type_exact_out"), ("use of the result", "processor.rs process_*")],
 ["returned quote", "balances after the transaction"],
 "bounded exhaustive enumeration of states and operations, lockstep of the real program with its public calculation functions",
 "A dense small square and a lattice of large states on 23 curves; the fees of the quote are also compared with the documented formula; " + RUN + ".")

prop("C28", "The work a request needs is bounded",
 "Every request comes to an end, refused or not, after an amount of work that depends on the kind of request and of curve only: whatever the amounts, reserves, supply, fees and curve parameters, the number of steps executed stays within a small multiple of what the documented formulas and their fixed iteration counts need, and the memory used within the 32 KiB heap of a transaction. So no state and no parameters make a pool unusable by exhausting the compute or memory of a transaction.",
 ["inputs", "configurations", "histories"], "every request on every curve with any parameters, pool state and amount",
 "The repository notes that only running on a chain shows that the compute limit is kept, and limits its square root and iterations for that reason; the tests have no limit, and which operands make an iteration run long (or never settle) is not apparent from samples.",
 F("curve/stable.rs", "dfs_precise_number.rs", "curve/linear_price.rs", "curve/calculator.rs", "processor.rs"),
 [("fixed number of iterations", "stable.rs ITERATIONS, compute_d, compute_new_destination_amount"), ("square root limited to 64 bits", "dfs_precise_number.rs sqrt_u64"), ("reduction of fractions", "curve/fees.rs, stable.rs")],
 ["basic blocks executed and bytes allocated by one request"],
 "bounded exhaustive enumeration of states and requests plus BFS over histories on the real program, compiled so that every basic block and allocation is counted exactly",
 "No clock is involved: counts are exact and repeatable. Bounds are two and a half times the most seen on the unchanged code (the chain's own compute units are not modelled); 27 curves, a lattice of reserves, supplies and amounts, a finer one for the two iterating calculations; " + RUN + ".")

exec(open(os.path.join(root, "tools", "more_props.py")).read()) if os.path.exists(os.path.join(root, "tools", "more_props.py")) else None
P.sort(key=lambda p: p["id"])
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": p["state"],
                        "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
man = {"version": 1, "setup_cmd": "bash check.sh build && bash check.sh build-prod && bash check.sh build-meter",
       "checks": [{"property": p["id"], "quick_cmd": f"bash check.sh {p['id']} quick", "thorough_cmd": f"bash check.sh {p['id']} thorough",
                   "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": "model_checking", "level_note": p["note"]} for p in P],
       "not_applicable": [],
       "notes": "No hooks: the explorer (mc/) links /repo's crate as it is and drives its public processor and entry points. Every check rebuilds it from /repo's working tree."}
json.dump(man, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
from jsonschema import validate
sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open(os.path.join(root, "properties.jsonl")): validate(json.loads(l), sch)
validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
for p in P:
    n = p["statement"].replace("(", "").count(". ") + 1
    if n > 3: print(p["id"], "statement has", n, "sentences")
print(len(P), "properties")
