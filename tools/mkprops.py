#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
S='programs/presale/src/'
I=S+'instructions/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={'files':files,'mechanism':[{'name':m[0],'where':m[1]} for m in mech]}
    if state: a['state']=[{'name':s[0],'meaning':s[1],'where':s[2]} for s in state]
    a['observe_at']=observe or ['transaction accept/reject','token balances','decoded program accounts']
    a['hook_needed']=None
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})
H=['schedules','histories','configurations','fault_sequences']
T='every presale mode, whitelist mode, fee/vesting configuration and token kind; every interleaving of creator, buyer and third-party transactions with drops, duplicates, reordering, clock jumps and failing transfers'
W='The in-repo tests that exercise it need an SBF build that is absent, and sample a few straight-line scripts with round numbers; none interleaves parties, lands on time boundaries or injects failures.'

p('C01','Quote vault is always solvent',
 'At every moment a presale\'s quote vault holds at least everything that presale still owes in quote tokens: every refundable deposit and deposit fee while the sale is open or failed; after success, the creator\'s uncollected proceeds, the uncollected fees and every unclaimed refund. No payout ever exceeds what its recipient is owed, so one party\'s exit can never consume another\'s money.',
 H,T,W,[S+'state/presale.rs',S+'state/presale_registry.rs',S+'state/escrow.rs',I+'process_deposit.rs',I+'process_withdraw.rs',I+'process_withdraw_remaining_quote.rs',I+'process_creator_withdraw.rs',I+'process_creator_collect_fee.rs'],
 [('totals updated with every transfer',S+'state/presale.rs deposit/withdraw'),('floor rounding on refunds, min(total,cap) proceeds',S+'state/presale.rs, '+I+'process_creator_withdraw.rs')],
 [('quote vault balance','quote tokens in custody','PDA quote_vault'),('deposit and fee totals','what is owed','presale, registry and escrow accounts')])
p('C02','Base vault is funded up front and always covers what was sold',
 'Creating a presale puts the full advertised token supply into its base vault (net of any token transfer fee). From then on the vault always holds at least every buyer\'s unclaimed allocation plus unsold tokens not yet returned or burned (or, if the sale failed, the creator\'s whole supply), and no sequence of claims, unsold-token action and creator withdrawal pays out more than that supply.',
 H,T,W,[I+'initialize_presale/process_initialize_presale.rs',I+'process_claim.rs',I+'process_perform_unsold_base_token_action.rs',I+'process_creator_withdraw.rs',S+'math/claim_math.rs'],
 [('supply transferred at creation',I+'initialize_presale/process_initialize_presale.rs'),('floor rounding of claims; unsold = supply - sold',S+'math/claim_math.rs, '+S+'presale_mode_handler')])
p('C03','Claims follow the vesting schedule exactly',
 'After a successful sale the total a buyer has been able to claim by time t is: their pro-rata share of the immediate-release portion from its release time on, plus their share of the remainder released linearly from the end of the lock period to the end of vesting (everything at once when no vesting is configured), each rounded down. This total depends only on t and not on how often, when or by whom the escrow was refreshed or claimed; it never decreases and reaches the whole allocation exactly at the end of vesting.',
 H,T,W,[S+'math/claim_math.rs',S+'presale_mode_handler/mod.rs',S+'presale_mode_handler/fixed_price_presale.rs',I+'process_claim.rs',I+'process_refresh_escrow.rs'],
 [('cumulative claimable minus already claimed or pending',S+'presale_mode_handler/mod.rs'),('immediate + linear drip',S+'math/claim_math.rs')],
 [('total_claimed_token, pending_claim_token','what the escrow was given','escrow account')])
p('C04','Every buyer in a registry gets the same price',
 'In a successful sale the final allocation of each buyer is their deposit\'s share of the tokens sold in their registry, rounded down by less than two units, so equal deposits in one registry end with equal tokens whatever the order of deposits, claims and exits. Tokens sold in a registry are its whole supply in dynamic-price modes, and deposits divided by the fixed price (never more than the registry supply) in fixed-price mode.',
 H,T,W,[S+'presale_mode_handler/fixed_price_presale.rs',S+'presale_mode_handler/mod.rs',S+'math/claim_math.rs'],
 [('share of registry supply',S+'presale_mode_handler/mod.rs'),('tokens bought at fixed price, capped at supply',S+'presale_mode_handler/fixed_price_presale.rs')])
p('C05','Deposit caps hold at all times',
 'After any accepted deposit the buyer\'s total lies between the registry minimum and maximum and never above the personal cap they were granted, and a granted personal cap always lies in the registry range. In first-come-first-served and fixed-price sales the total raised never exceeds the presale maximum cap and fixed-price deposits never exceed what the registry\'s remaining tokens cost; a request above the remaining quota is filled up to the quota.',
 H,T,W,[I+'process_deposit.rs',S+'state/escrow.rs',S+'state/presale_registry.rs',S+'presale_mode_handler/fcfs_presale.rs',S+'presale_mode_handler/fixed_price_presale.rs',S+'presale_mode_handler/prorata_presale.rs',I+'create_escrow/process_create_escrow.rs'],
 [('remaining deposit quota',S+'presale_mode_handler/*'),('post-deposit range check',S+'state/presale_registry.rs')])
p('C06','A deposit charges and records exactly the right amount',
 'An accepted deposit credits the buyer with the requested amount limited to the quota (in fixed-price sales rounded down to the cost of a whole number of tokens), and charges a fee such that the fee is the configured percentage of amount plus fee, rounded up. The vault receives exactly credited amount plus fee, and the payer pays exactly that plus the token\'s own transfer fee.',
 ['histories','configurations','inputs','fault_sequences'],'every amount, price, fee rate, transfer-fee schedule and epoch, in any history of earlier deposits and withdrawals',W,
 [I+'process_deposit.rs',S+'math/fee_math.rs',S+'presale_mode_handler/fixed_price_presale.rs',S+'token2022.rs'],
 [('fee-included amount, rounding up',S+'math/fee_math.rs'),('no-surplus rounding',S+'presale_mode_handler/fixed_price_presale.rs'),('transfer-fee gross-up',S+'token2022.rs')])
p('C07','Actions are accepted only in their phase; the outcome is final',
 'Escrow creation, deposits and withdrawals are accepted only from the start time (inclusive) to the end time (exclusive); claims, fee collection and unsold-token actions only after a successful end; refunds only after failure (or after success of a pro-rata sale); creator withdrawal only after the end. A sale succeeds exactly when total deposits at its end reach the minimum cap, and once ended its outcome, end time and deposit totals never change.',
 H,'every clock value, in particular the seconds around start, end and early end, and every ordering of actions in the same second',W,
 [S+'state/presale.rs',I+'process_deposit.rs',I+'process_withdraw.rs',I+'process_claim.rs',I+'process_creator_withdraw.rs',I+'process_creator_collect_fee.rs',I+'process_perform_unsold_base_token_action.rs',I+'create_escrow/process_create_escrow.rs'],
 [('progress derived from clock and totals',S+'state/presale.rs get_presale_progress'),('phase requirement in each handler',I)])
p('C08','Reaching the cap closes the sale at once and shifts the whole schedule',
 'In fixed-price and first-come-first-served sales, unless early closing was disabled, the deposit that brings the total to the maximum cap ends the sale at that very second, and lock end, vesting end and immediate-release time all move earlier by the same amount, keeping their distances to the end. Nothing else ever moves these times: not other deposits, not pro-rata sales, not sales with early closing disabled.',
 H,'every schedule (lock, vest, immediate release time incl. unset), every instant at which the cap is reached, every mode',W,
 [S+'state/presale.rs',S+'presale_mode_handler/mod.rs',S+'presale_mode_handler/fcfs_presale.rs',S+'presale_mode_handler/fixed_price_presale.rs',S+'presale_mode_handler/prorata_presale.rs'],
 [('end when total reaches cap',S+'presale_mode_handler/mod.rs'),('timing recalculation',S+'state/presale.rs')],
 [('end, vesting start/end, immediate release timestamps','the schedule','presale account')])
p('C09','A failed sale makes everyone whole, once',
 'If the sale ends below its minimum cap, every buyer can take back their entire remaining deposit and all deposit fees they ever paid, exactly once, and the creator can take back the entire token supply exactly once. In a failed sale the creator can never take quote tokens and buyers can never claim base tokens.',
 H,T,W,[S+'state/presale.rs',I+'process_withdraw_remaining_quote.rs',I+'process_creator_withdraw.rs',I+'process_claim.rs'],
 [('full refund branch',S+'state/presale.rs'),('refund-taken and creator-withdrawn flags',S+'state/escrow.rs, '+S+'state/presale.rs')])
p('C10','Oversubscribed pro-rata sales refund the excess fairly, once',
 'In a successful pro-rata sale the amount raised above the maximum cap, and the deposit fees charged on it, are returned to buyers in proportion to their deposits (fees in proportion to fees paid) within their registry, rounded down, each buyer exactly once. Without oversubscription the refund is zero, and refunds together with creator proceeds and collected fees never exceed what was paid in.',
 H,T,W,[S+'state/presale.rs',S+'state/presale_registry.rs',I+'process_withdraw_remaining_quote.rs'],
 [('registry share then escrow share, floored',S+'state/presale_registry.rs, '+S+'state/presale.rs')])
p('C11','The creator gets exactly the proceeds and the fees, once each',
 'After a successful sale the creator can withdraw exactly the smaller of total deposits and maximum cap, once, and can collect exactly the deposit fees that are not refundable to buyers, once; these two are independent of each other and of the order in which buyers exit. Before the end, or after failure, the creator can take neither.',
 H,T,W,[I+'process_creator_withdraw.rs',I+'process_creator_collect_fee.rs',S+'state/presale.rs'],
 [('once-only flags',S+'state/presale.rs'),('min(total, cap); fee minus refundable fee',I+'process_creator_withdraw.rs, '+S+'state/presale.rs')])
p('C12','Unsold tokens get the configured treatment exactly once',
 'After a successful sale exactly the tokens that were not sold (supply minus tokens sold over all registries, computed from final deposits) can be dealt with once: burned from the supply, or sent to the creator\'s own associated token account, as configured. Nobody can make this happen earlier, twice, in another amount, or send the tokens elsewhere, and it never touches buyers\' allocations.',
 H,T,W,[I+'process_perform_unsold_base_token_action.rs',S+'presale_mode_handler/mod.rs',S+'presale_mode_handler/fixed_price_presale.rs'],
 [('performed flag, unsold computation, ATA constraint',I+'process_perform_unsold_base_token_action.rs')])
p('C13','Only the rightful party can move value or change settings',
 'Withdrawing, claiming, taking a refund from or closing an escrow requires the signature of that escrow\'s owner; creator withdrawal, fee collection, whitelist roots and server metadata require the signature of the presale\'s creator; an operator grant or a price-parameter account can be removed only by the one it belongs to; a deposit needs the payer\'s signature. No substitution of accounts or omission of signatures gets around this.',
 H,'every instruction with any signer missing or replaced by any other party, in any state',W,
 [I,S+'state/escrow.rs',S+'state/presale.rs'],
 [('Signer and has_one constraints',I+'*')])
p('C14','Presales, vaults and escrows cannot be mixed up',
 'Every instruction works only on the genuine accounts of one presale: a look-alike account created by someone else, an account of another kind, or the vault, mint, escrow, price parameters, operator or whitelist root of another presale is refused. A transaction about one presale or escrow never changes any account of another presale, another buyer\'s escrow, or anyone\'s token account that is not a party to it.',
 H,'every instruction with any account replaced by any other account in the system, and every multi-presale history sharing mints, creators and buyers',W,
 [I,S+'token2022.rs',S+'const_pda.rs'],
 [('has_one, seeds, address and type constraints',I+'*')])
p('C15','Merkle whitelist admits exactly the listed buyers',
 'In a merkle-whitelisted presale an escrow can be created only for an owner, registry and personal cap that appear as one entry in a tree whose root the creator published for that very presale and has not removed, with a valid proof; every such entry is admitted while the sale is open. Roots can be published only by the creator of a merkle-mode sale that has not ended, and not removed while it is open.',
 H,'every tree, entry, proof (including truncated, altered, borrowed and second-preimage proofs), root version history and clock',W,
 [I+'create_escrow/process_create_permissioned_escrow_with_merkle_proof.rs',I+'process_create_merkle_root_config.rs',I+'process_close_merkle_root_config.rs','merkle-tree/src/config_merkle_tree.rs','merkle-tree/src/merkle_tree.rs'],
 [('leaf hash binds owner, registry, cap; domain separation',I+'create_escrow/process_create_permissioned_escrow_with_merkle_proof.rs')])
p('C16','Operator whitelist: only a current operator of the creator can admit',
 'In an authority-whitelisted presale an escrow can be created only with the signature of an operator that the presale\'s creator has granted and not revoked, and it gets exactly the registry and personal cap the operator signed for. Other creators\' operators, revoked operators and the permissionless or merkle routes never work for such a presale, and likewise each mode\'s route works only for that mode.',
 H,'every history of grants, revocations and creations in any order and delivery, across creators',W,
 [I+'create_escrow/process_create_permissioned_escrow_with_creator.rs',I+'process_create_operator.rs',I+'process_revoke_operator.rs',I+'create_escrow/process_create_permissionless_escrow.rs'],
 [('operator owner and creator check',I+'create_escrow/process_create_permissioned_escrow_with_creator.rs')])
p('C17','Withdrawals before the end return exactly what they take off the record',
 'While the sale is open a buyer in a pro-rata sale, or in a fixed-price sale that allows it, can withdraw part or all of their deposit and receives exactly the amount by which their recorded deposit drops: the request rounded down to a whole number of tokens\' cost in fixed-price sales (a full withdrawal is not rounded). They can never withdraw more than they have, fees are not returned by withdrawing, what remains is zero or at least the registry minimum, and first-come-first-served sales or fixed-price sales with withdrawals disabled never allow it.',
 H,T,W,[I+'process_withdraw.rs',S+'presale_mode_handler/fixed_price_presale.rs',S+'presale_mode_handler/prorata_presale.rs',S+'presale_mode_handler/fcfs_presale.rs'],
 [('balance, mode and range checks',I+'process_withdraw.rs')])
p('C18','Escrows are unique, and close only when nothing is left to claim',
 'A buyer has at most one escrow per presale and registry, bound to the owner, registry and cap it was created for. It can be closed only by its owner and only when closing loses nothing: no deposit and no fee paid while the sale is open, refund taken (or nothing paid) after failure, and after success the full allocation claimed and any refund taken; closing returns the account\'s rent to the chosen receiver and removes the escrow from the counts.',
 H,T,W,[I+'process_close_escrow.rs',I+'create_escrow/process_create_escrow.rs',S+'state/escrow.rs'],
 [('per-phase closing conditions',I+'process_close_escrow.rs')])
p('C19','Presale and registry totals always equal the sum of their escrows',
 'At every moment a presale\'s and each registry\'s recorded total deposit, deposit fees, claimed tokens, refunded quote and number of escrows equal the sums over the escrows that ever belonged to it (deposits, fees, claims and refunds of closed escrows included, open escrows for the count). A transaction that fails at any point leaves all of them unchanged.',
 H,T,W,[S+'state/presale.rs',S+'state/presale_registry.rs',S+'state/escrow.rs'],
 [('paired updates of escrow, registry and presale',S+'state/presale.rs')])
p('C20','Presale creation accepts only valid configurations and stores them unchanged',
 'A presale is created only if: caps satisfy 0 < minimum <= maximum; the sale lasts 60 seconds to 30 days and starts within 30 days (a past start becomes now); there are 1 to 5 registries (more than one only when whitelisted), each with supply > 0, 0 < maximum buyer cap <= presale cap, minimum <= maximum and fee at most 50%; total supply fits in 64 bits; sale mode, whitelist mode, unsold-token treatment and switches are defined values; lock plus vesting is under 10 years, the released share is at most 100%, all-immediate means no lock or vesting, otherwise some, and a release time lies between the end and vesting end; whitelisted sales open the full buyer range; and a fixed price lets every buyer cap buy a token, the supply cover the cap and leaves a gap between the caps. The stored configuration equals the request, can be created once per address, and no later instruction alters it (apart from early closing).',
 ['inputs','configurations','histories'],'every configuration including every boundary value and mode/whitelist/vesting combination, at every clock value, and every later history',W,
 [I+'initialize_presale/params.rs',I+'initialize_presale/process_initialize_presale.rs',I+'initialize_presale/process_create_presale_vault.rs',S+'state/presale.rs',S+'presale_mode_handler/fixed_price_presale.rs',I+'process_initialize_extra_presale_params.rs'],
 [('validation',I+'initialize_presale/params.rs'),('mode-specific validation',S+'presale_mode_handler/*')])
p('C21','Everyone can always get in and out; only rounding dust remains',
 'While a sale is open every deposit that respects the caps is accepted, and once transient faults (failing transfers, frozen accounts, failing hooks) stop, every party can complete every payout they are entitled to, in any order and however late. After the end of vesting, when all have done so, every escrow can be closed and the vaults hold nothing but donations and at most two units of rounding per escrow and registry.',
 H,'every history and fault sequence, followed by every exit order',W,
 [I,S+'state/presale.rs',S+'presale_mode_handler/fixed_price_presale.rs',S+'math/safe_math.rs'],
 [('rounding always in favour of the vault',S+'math'),('no arithmetic failure on reachable states',S+'math/safe_math.rs')])
p('C22','Token-2022 features are handled or refused',
 'A presale can be created only with plain SPL tokens or Token-2022 tokens whose extensions are among transfer fee, transfer hook, metadata and metadata pointer. With a transfer fee (which may change between epochs) the vault still receives exactly the intended net amount and payouts leave the vault at exactly the owed gross amount; with a transfer hook the hook runs on every transfer and its failure rejects the transaction; payouts to accounts that require a memo succeed.',
 H,'every extension set, every fee schedule across epochs, failing hooks at any moment, memo requirements toggled at any moment',W,
 [S+'token2022.rs',I+'initialize_presale/process_initialize_presale.rs'],
 [('extension allow-list; epoch fee; inverse fee; memo; hook accounts',S+'token2022.rs')])
p('C23','Events report what really happened',
 'Every accepted instruction that changes state emits exactly one event (revoking an operator reports none), naming the presale, escrow and parties involved, and the amounts and running totals in it equal the actual token movement (net of token transfer fees for payouts) and the state stored after the instruction. Rejected transactions emit none.',
 H,T,W,[S+'events.rs',I],
 [('emit_cpi at the end of each handler',I+'*')],observe=['self-CPI event data','token balances','decoded program accounts'])
p('C24','Outsiders cannot change anyone\'s outcome',
 'Actions open to anyone - refreshing an escrow at any time, sending tokens or lamports to vaults, escrows or not yet created addresses, and rejected transactions of any kind - never block, delay, increase or reduce what the creator and each buyer receive in the end. The final balances of all parties are the same as in the same history without those actions.',
 H,'every history with any set of such interferences inserted at any points',W,
 [I+'process_refresh_escrow.rs',I+'process_claim.rs',S+'presale_mode_handler/mod.rs',S+'state/presale.rs'],
 [('payouts computed from recorded totals, not vault balances',S+'state/presale.rs'),('refresh only accumulates',S+'presale_mode_handler/mod.rs')])
p('C25','Whitelist trees survive storage and never admit the wrong buyer',
 'The whitelist tool builds from any list of entries a tree in which each owner\'s last entry, and nothing else, has a proof the program accepts against the tree\'s root. Looking up an owner finds exactly that entry, and the tool derives the address under which the program keeps the root. Writing it to a file and loading it back yields the same root, entries and proofs; a file that was cut short or whose entries or root were damaged is refused on loading or by verification, and damaged proofs at worst fail to admit someone - no file ever yields a proof admitting an owner, registry or cap not listed.',
 ['inputs','crash_points','fault_sequences'],'every entry list (including duplicates and odd sizes), every truncation point and damaged byte of the stored file',
 'No stable test covers the tool at all; file damage is never exercised.',
 ['merkle-tree/src/config_merkle_tree.rs','merkle-tree/src/merkle_tree.rs','merkle-tree/src/tree_node.rs','merkle-tree/src/utils.rs',I+'create_escrow/process_create_permissioned_escrow_with_merkle_proof.rs'],
 [('tree construction and proof extraction','merkle-tree/src'),('verification before use','merkle-tree/src/config_merkle_tree.rs')],observe=['tree file','accept/reject of escrow creation with the tool\'s proofs'])
p('C26','Helper records hold what was published, and rent goes back where it belongs',
 'Operator grants, price parameters, whitelist roots and server links exist at most once per key (creator and operator; presale; presale and version; presale), are created only with the signature and in the phase they require, hold exactly what was published, stay unchanged until their owner removes them, and can then be created anew. The SOL rent of every account the program creates is taken from the signing payer alone, and removing a record or an escrow hands all of its SOL to the named receiver (or the owner where none is named); no other SOL moves.',
 H,'every interleaving of creating, removing and recreating records for several presales and creators with every other instruction, with SOL sent to the addresses beforehand or afterwards',W,
 [I+'process_create_operator.rs',I+'process_revoke_operator.rs',I+'process_create_merkle_root_config.rs',I+'process_close_merkle_root_config.rs',I+'process_initialize_extra_presale_params.rs',I+'process_close_extra_presale_params.rs',I+'process_create_permissioned_server_metadata.rs',I+'process_close_merkle_proof_metadata.rs',I+'process_close_escrow.rs'],
 [('derived addresses and init constraints',I),('close constraints naming the receiver',I)],observe=['transaction accept/reject','decoded program accounts','lamports of every account'])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
