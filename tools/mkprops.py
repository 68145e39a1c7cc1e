#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json
S="program/src/actions/sign_v2.rs"
ST="state/src/"
PA="program/src/actions/"
def P(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    d["anchors"]["observe_at"]=observe or ["ledger (every account's lamports, owner and data) before and after each instruction"]
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    return d
L=[]
L.append(P("P01","SOL leaving the wallet is always covered by the signing role's allowance",
"When a role without full authority runs inner instructions through the wallet, the lamports those instructions take out of the wallet's SOL address never exceed the SOL allowance that role still has, and the stored allowance shrinks by exactly the amount spent. A role holding no SOL allowance can take nothing out, and a request that would overspend is rejected with nothing changed. This holds over any sequence of requests, so the sum spent since a grant never exceeds the grant.",
["histories","inputs","fault_sequences"],"every sequence of signed requests by any mix of roles, any split of a spend over inner instructions and transactions (with repayments in between), retries, duplicated and reordered deliveries, forks and aborted executions",
"Program tests need an SBF build and check a few hand-picked amounts in one or two transactions; the 84 stable tests only exercise the state crate's table code. Nothing composes allowances with histories, other roles or faults.",
[S,ST+"action/sol_limit.rs",ST+"role.rs"],
[("gross outflow accounting per inner instruction and final charge","sign_v2: total_sol_spent and the Account classification ThisSwigV2"),("allowance check and decrement","SolLimit::run")],
[("amount","lamports still allowed","SolLimit in the role's action list")]))
L.append(P("P02","Recurring spending limits reset only at window boundaries and never over-grant",
"A role with a recurring allowance (SOL, token or stake) can spend at most the configured amount between two refills, and a refill happens only once at least a full window has passed since the recorded start of the current one. Refilling restores exactly the configured amount, never adds unused remainder, and a spend larger than the amount available is rejected and leaves both remainder and window start untouched.",
["histories","schedules","fault_sequences"],"every interleaving of spends and clock advances (slots skipped, jumps of many windows, spends exactly at, one before and one after a boundary), with failed and rolled-back attempts in between",
"Window arithmetic depends on the slot at which each request lands; tests warp to one or two fixed slots. No test runs long spend histories under arbitrary slot schedules.",
[ST+"action/sol_recurring_limit.rs",ST+"action/token_recurring_limit.rs",ST+"action/stake_recurring_limit.rs",S],
[("window test, refill and decrement","SolRecurringLimit::run, TokenRecurringLimit::run, StakeRecurringLimit::run")],
[("last_reset, current","start of the current window and amount left in it","the recurring action structs")]))
L.append(P("P03","Token balances owned by the wallet fall only within the role's token allowance",
"When a role without full authority signs, the amount by which token accounts owned by the wallet lose tokens of a mint never exceeds that role's remaining allowance for that mint, and exactly that amount is deducted from it. Without an allowance for the mint no such account may lose a single token; allowances for one mint never pay for another.",
["histories","inputs","fault_sequences"],"every history of transfers, burns, round trips and multi-account spends over several mints, both token programs, and many roles",
"Tests use one mint and one source account with fixed amounts; the quantifier is over all histories, account mixes and roles.",
[S,ST+"action/token_limit.rs"],
[("per-instruction decrease accounting of wallet token accounts","sign_v2: SwigTokenAccount classification"),("allowance check and decrement","TokenLimit::run")],
[("current_amount","tokens of the mint still allowed","TokenLimit")]))
L.append(P("P04","Destination-restricted allowances only pay the named destination",
"When a role's SOL or token allowance is restricted to destinations, every lamport or token taken from the wallet by that role goes to a destination for which it holds a restriction, within that restriction's own remaining amount (and window, if recurring), in addition to its general allowance. Anything that leaves by another route or to another recipient makes the whole request fail.",
["inputs","histories"],"every combination of general and destination limits, several destinations, split and mixed transfers, other program calls in the same request, and clock positions",
"Tests cover one destination with a single transfer; combinations of destination limits with other outflows in one request are not sampled.",
[S,ST+"action/sol_destination_limit.rs",ST+"action/sol_recurring_destination_limit.rs",ST+"action/token_destination_limit.rs",ST+"action/token_recurring_destination_limit.rs"],
[("parsing of transfers and matching to destination actions","sign_v2: check_sol_destination_limits / token destination checks"),("per destination accounting","the four destination limit actions' run")]))
L.append(P("P05","Stake controlled by the wallet moves only within the role's stake allowance",
"When a role without full authority signs, changes to the balance or delegated amount of stake accounts whose withdraw authority is the wallet are charged to that role's stake allowance and are rejected without one or beyond it. Everything else about such a stake account that the role is not entitled to change - its authorities and lockup - is the same afterwards as before.",
["histories","inputs"],"every mix of stake operations (delegate, deactivate, withdraw, split, authorize) through roles with unlimited, fixed, recurring or no stake permission, at any slot",
"Stake tests cover isolated operations; mixes of roles, limits and operations over time are unexplored.",
[S,ST+"action/stake_limit.rs",ST+"action/stake_recurring_limit.rs",ST+"action/stake_all.rs"],
[("stake snapshot and delta","sign_v2: SwigStakeAccount classification"),("allowance check","StakeLimit::run, StakeRecurringLimit::run")]))
L.append(P("P06","Scoped program permissions bound the tracked balance of their target account",
"When a role holds a scoped permission on a target account owned by another program, the fall of the tracked balance of that account caused by a request of that role never exceeds what the role's own scope still allows (unlimited, fixed or per-window), and the scope's usage counter grows by exactly that fall. A role that holds no scope for a target that is watched for another role cannot change it at all.",
["histories","inputs","schedules"],"every set of roles with scopes of different kinds, widths and offsets on the same or different targets, any order of requests and slots",
"Tests use a single role and one target; several roles scoping one target and window schedules are not covered.",
[S,ST+"action/program_scope.rs",PA+"mod.rs"],
[("balance read-out at the configured byte range","ProgramScope::read_account_balance"),("usage accounting","ProgramScope::run"),("classification of scoped accounts","program lib.rs classify_account")]))
L.append(P("P07","The wallet's signature is lent only to programs the role may call",
"A role without full authority can have the wallet sign an inner instruction only when the invoked program is covered by one of its permissions: all programs, the curated list, or that one program. Permission for one program, however granted, never lets another program see the wallet as signer.",
["inputs","histories"],"every combination of program permissions and inner instruction lists, including account lists with repeated or aliased entries and nested calls by the invoked program",
"Tests check single positive and negative cases; the quantifier is over all permission sets and instruction lists.",
[S,ST+"action/program.rs",ST+"action/program_all.rs",ST+"action/program_curated.rs","instructions/src/lib.rs"],
[("program permission test before each inner call","sign_v2"),("signer flag construction","InstructionIterator::parse_next_instruction")]))
L.append(P("P08","A limited role cannot damage the wallet, its configuration or its accounts",
"After any request by a role without full authority, the wallet configuration changed at most in that role's own spending counters, the wallet's SOL address is still an empty system account holding at least the rent-exempt minimum, and every token account owned by the wallet has the same owner, mint, delegate, state and close authority as before unless it was closed empty under a permission to close. A request that would do otherwise is rejected as a whole.",
["inputs","histories","fault_sequences"],"every inner instruction list a limited role can submit, including ownership, delegation, close-authority and account-assignment instructions and calls into adversarial programs",
"Only a handful of tampering attempts are tested; the claim ranges over all inner instructions and programs.",
[S,"program/src/util/mod.rs"],
[("before/after hashes of protected accounts","sign_v2 account snapshots, hash_except"),("rent floor of the wallet","sign_v2 final checks")]))
L.append(P("P09","Only the authority registered for the acting role can authorise a request",
"A request changes wallet state or moves wallet funds only if it carries a valid authorisation, made for exactly this request, by the key currently registered for the role it names. Changing the role, any argument, any account or account flag covered by the signature, the wallet or the signature itself makes it fail with no effect, and no role can be used with another role's key.",
["inputs","histories","fault_sequences"],"every request built from honest signatures by cutting, splicing, re-targeting, corrupting or re-ordering any part, for every kind of authority and every instruction",
"Tests use a few wrong keys per instruction; soundness ranges over all tampering and all authority kinds in all states.",
[ST+"authority/ed25519.rs",ST+"authority/secp256k1.rs",ST+"authority/secp256r1.rs",ST+"authority/mod.rs"],
[("signature verification per authority kind","Authority::authenticate implementations"),("binding of accounts and payload","AccountsPayload and the authenticated message construction")]))
L.append(P("P10","A secp256k1 or secp256r1 signature authorises at most one execution",
"A signature by a counter-based authority takes effect at most once: only with a counter one above the stored value, only within the allowed age in slots and never from the future, and every accepted use advances the stored counter by exactly one. Replaying it later, in another transaction, after a fork or alongside newer signatures, never takes effect a second time, and a rejected request leaves the counter unchanged.",
["histories","schedules","fault_sequences"],"every schedule of delivery, duplication, delay, reordering, fork and expiry of honestly produced signatures",
"Replay safety is about all later deliveries of old messages; tests replay once or twice immediately.",
[ST+"authority/secp256k1.rs",ST+"authority/secp256r1.rs"],
[("odometer and age check","secp256k1/secp256r1 authenticate")],
[("signature counter","last accepted counter","signature_odometer")]))
L.append(P("P11","Session keys work only until expiry, within the maximum and only for their role",
"A session key acts for a session-enabled role exactly from its creation by the role's own authority through its expiry slot, where the lifetime may not exceed the maximum fixed when the role was created. After expiry, replacement by a newer session or removal of the role the old key is refused; opening a session changes nothing but that role's session key and expiry, and non-session roles never accept one.",
["schedules","histories","inputs"],"every interleaving of session creation, use, expiry, renewal and removal with clock jumps, for each session-capable authority kind",
"Expiry is a property of every slot at which a request may land; tests probe one slot either side for one kind of authority.",
[ST+"authority/ed25519.rs",ST+"authority/secp256k1.rs",ST+"authority/secp256r1.rs",PA+"create_session_v1.rs"],
[("session start and expiry check","start_session / authenticate_session")]))
L.append(P("P12","Passkey assertions bind to the exact request",
"A secp256r1 request signed through a passkey takes effect only if the signed client data is an assertion whose challenge is the hash of this very request, and the signature checked immediately before in the same transaction covers the authenticator data and that client data under the role's registered key. Assertions made for another request, another ceremony type, another key, or checked elsewhere in the transaction are refused.",
["inputs","histories"],"every placement and content of signature-check instructions and every client data text, honest or adversarial, in both supported encodings",
"Tests have a few golden assertions; parsing of arbitrary client data and placement of the precompile check are open.",
[ST+"authority/secp256r1.rs"],
[("precompile introspection","verify_secp256r1_instruction_data"),("client data reconstruction and challenge comparison","webauthn_message and its parsers")]))
L.append(P("P13","Program-executed authorities require the registered preceding program call",
"A role whose authority is a program call can act only in a transaction in which an earlier top-level instruction calls exactly the registered program, with data starting with exactly the registered prefix and naming this wallet's two accounts first. Any other program, prefix, order, position or wallet is refused.",
["inputs","histories","schedules"],"every arrangement of instructions in a transaction, every registered prefix length, and failures of the called program",
"Tests exercise a couple of arrangements with one test program.",
[ST+"authority/mod.rs",ST+"authority/programexec/mod.rs",PA+"replace_authority_v1.rs"],
[("instruction introspection","program_exec_authenticate")]))
L.append(P("P14","Only authority managers change roles, and they change only what was asked",
"Adding, updating and removing roles takes effect only when the acting role may manage authorities (or a role removes itself), the founding role can never be removed, and a session, signature or key of another role never suffices. Each accepted change has exactly the requested effect on the requested role and none on any other role.",
["inputs","histories"],"every sequence of role additions, updates and removals by every kind of acting role, mixed with spends",
"Tests apply one change at a time to a small wallet.",
[PA+"add_authority_v1.rs",PA+"remove_authority_v1.rs",PA+"update_authority_v1.rs",ST+"swig.rs"],
[("permission test","the acting role lookup in each instruction"),("role table edits","SwigBuilder add/remove/replace actions")]))
L.append(P("P15","The stored role table is always well formed",
"After every accepted instruction the wallet configuration decodes to exactly the roles and permissions its history produced: headers, lengths, boundaries and counts agree, no bytes are lost, shifted, shared or left over, and optional trailing data survives every resize. Roles not addressed by an instruction keep every byte of their authority and permissions, except spending counters of the signing role.",
["histories","fault_sequences"],"every history of additions, in-place and resizing updates, removals from any position, replacements, sub-account registrations and spends, with aborted executions between",
"State tests cover short fixed sequences; offset bugs show only in particular orders of resizing and removal.",
[ST+"swig.rs",ST+"role.rs",ST+"action/mod.rs",PA+"update_authority_v1.rs",ST+"tail/mod.rs"],
[("role table layout","Position/Action boundaries, SwigBuilder"),("byte moves on resize","perform_replace_all, add/remove action operations")]))
L.append(P("P16","Role identifiers are never reused",
"Every role ever added to a wallet gets an identifier larger than all identifiers handed out before, including those of removed roles. A request or permission that names a removed role can never come to mean a later one.",
["histories"],"every history of additions and removals, including removal of the newest role and migration",
"Only long add/remove histories can show reuse.",
[ST+"swig.rs",PA+"add_authority_v1.rs"],
[("monotonic role counter","SwigBuilder::add_role")],[("role_counter","next identifier","Swig header")]))
L.append(P("P17","Replacing an authority swaps only the key, and only with permission",
"An authority can be replaced only by a role that may manage authorities or was explicitly granted replacement of that role, and only by a well-formed key of the same kind that differs from the old one. Afterwards the old key, its open session and its old signatures are powerless, the new key has exactly the old role's permissions and spending counters, and nothing else changed.",
["inputs","histories","schedules"],"every kind of authority and acting role, pending signatures and sessions of the old key delivered after the replacement",
"In-flight requests signed by the old key and sessions across the replacement are histories tests do not build.",
[PA+"replace_authority_v1.rs",ST+"action/replace_authority.rs"],
[("permission, uniqueness and in-place key swap","replace_authority_v1")]))
L.append(P("P18","First-generation sub-accounts act only for their own role and while enabled",
"A role can sign for a first-generation sub-account only if that sub-account was created for it and is enabled; other roles, wallets and disabled sub-accounts are refused. Only that role or an authority manager can switch it, each role gets at most one, and inner instructions never obtain the signature of the main wallet or another sub-account.",
["histories","inputs"],"every history of creation, use, switching and removal across several wallets and roles, with cross-wired accounts",
"Tests wire one role to one sub-account; substitution across roles, wallets and histories is not explored.",
[PA+"create_sub_account_v1.rs",PA+"sub_account_sign_v1.rs",PA+"toggle_sub_account_v1.rs",ST+"action/sub_account.rs"],
[("sub-account binding stored in the role","SubAccount action"),("address derivation and enable flag checks","sub_account_sign_v1")]))
L.append(P("P19","Second-generation sub-accounts obey per-account permissions and the kill switch",
"Each second-generation sub-account gets a fresh number and addresses of its own, and creating, signing, withdrawing and switching it succeed exactly for roles holding the matching permission for that number; every sub-account belongs to exactly one wallet. While it is switched off nobody can sign with or withdraw from it, and whoever signs for it obtains only that sub-account's signature.",
["histories","inputs","schedules"],"every history of creation, grants, switching, signing and withdrawal over several wallets, roles and sub-accounts, racing requests included",
"Tests use one sub-account and one role; the isolation claim ranges over all pairs.",
[PA+"create_sub_account_v2.rs",PA+"sub_account_sign_v2.rs",PA+"toggle_sub_account_v2.rs",PA+"withdraw_from_sub_account_v2.rs",ST+"sub_account_v2.rs",ST+"action/sub_account_v2.rs"],
[("per-number permission lookup","SubAccountV2 actions"),("state account with enabled flag","SubAccountV2 state PDA")],
[("sub_account_counter","next sub-account number","Swig header")]))
L.append(P("P20","Sub-account withdrawals end only in the owning wallet",
"Withdrawing from a sub-account moves exactly the requested lamports or tokens from that sub-account to the wallet that owns it (or a token account of that wallet), and to no other recipient, and requires an authorised role. A withdrawal that would leave the source with some lamports but too few to stay alive fails as a whole, and no other account is ever touched.",
["inputs","histories"],"every substitution of source, destination, mint, token program and wallet accounts, every amount and balance, both generations",
"Tests withdraw once to the right wallet.",
[PA+"withdraw_from_sub_account_v1.rs",PA+"withdraw_from_sub_account_v2.rs"],
[("destination validation","withdraw instructions")]))
L.append(P("P21","Closing a wallet is authorised, pays out everything and is final",
"A wallet can be closed only by a role allowed to close it; all its lamports except the minimum that keeps the tombstone alive reach the named recipient. A closed wallet can never sign, change, be re-created or be re-opened, and its identifier can never again yield a working wallet.",
["histories","fault_sequences"],"every history before and after closing, funds arriving late, re-creation attempts with the same identifier, aborted closes",
"Tests close once and try one follow-up.",
[PA+"close_swig_v1.rs","program/src/lib.rs"],
[("permission test and fund sweep","close_swig_v1"),("closed marker","CLOSED_SWIG discriminator")]))
L.append(P("P22","A registered rent claimer is permanent and always honoured",
"A rent claimer can be set at most once, only by a role with full or close authority, to an address other than zero, the wallet or its configuration, and from then on it never changes whatever else happens to the wallet. While it is set, rent freed by closing the wallet or its token accounts can go only to it.",
["histories","inputs"],"every history of role changes, resizes, sub-account creation and spends after registration, and closes naming any recipient",
"Persistence of trailing data across all later resizes is a history property.",
[PA+"set_rent_claimer_v1.rs",PA+"close_swig_v1.rs",PA+"close_token_account_v1.rs",ST+"tail/rent_claimer.rs",ST+"tail/mod.rs"],
[("append-only tail record","tail::rent_claimer"),("recipient check","close instructions")]))
L.append(P("P23","Token accounts of the wallet are closed only when empty and authorised",
"Closing token accounts through the dedicated instruction succeeds only for a role with full, managing or close authority, only for accounts of this wallet that hold no tokens (wrapped native SOL excepted, whose lamports are the tokens), and sends exactly their lamports to the named recipient. If any listed account does not qualify, none is closed.",
["inputs","histories"],"every list of token accounts (foreign, non-empty, frozen, repeated, wrong program), every role and recipient",
"Tests close one or two empty accounts.",
[PA+"close_token_account_v1.rs"],
[("ownership, balance and permission checks","close_token_account_v1")]))
L.append(P("P24","Each wallet identifier is created exactly once and creation cannot be blocked",
"Creating a wallet with an unused identifier always succeeds for a funded payer with valid arguments, whatever lamports anyone sent to its addresses beforehand, and yields a fresh wallet with exactly the requested founding role, which must hold full or managing authority. Creation over an existing or closed wallet, or at addresses not derived from the identifier, always fails with no effect.",
["histories","inputs","fault_sequences"],"every order of pre-funding, racing creations, retries and closes, every authority kind and argument combination",
"Tests create wallets on empty addresses; front-running by donations is not covered.",
[PA+"create_v1.rs","program/src/util/mod.rs"],
[("address derivation and emptiness check","create_v1"),("account creation","create_v1 / pinocchio-system")]))
L.append(P("P25","Migration and asset transfer keep funds and history of the wallet",
"Migrating an old-format wallet happens at most once, by an authorised role, and keeps every role, permission, counter and trailing record; asset transfer moves only assets held by the configuration address to this wallet's own address. Neither can be used to reset counters or send assets elsewhere, and a wallet already in the new format is left untouched.",
["histories","inputs"],"old and new format wallets in any state, repeated migrations interleaved with sub-account creation and spends, every substitution of accounts",
"Tests migrate one fresh wallet once.",
[PA+"migrate_to_wallet_address_v1.rs",PA+"transfer_assets_v1.rs"],
[("format check and header rewrite","migrate_to_wallet_address_v1"),("destination validation","transfer_assets_v1")]))
L.append(P("P26","Malformed instructions fail cleanly without touching memory they do not own",
"Any instruction data, account list or account content, however malformed, truncated, oversized or aliased, is either handled according to the rules or rejected with no effect; it never makes the program read or write outside its inputs, hang, or leave an undecodable configuration. A request accepted in a malformed encoding is never interpreted differently from how its bytes are specified.",
["inputs","fault_sequences"],"arbitrary mutations of valid requests and of account lists at every byte and position, in arbitrary wallet states, with heap exhaustion and mid-execution aborts",
"The code parses with unchecked casts; tests feed well-formed data almost exclusively.",
["program/src/lib.rs","program/src/instruction.rs","instructions/src/lib.rs",ST+"transmute.rs",ST+"action/mod.rs"],
[("length and layout validation","from_instruction_bytes of each instruction, Transmutable::load_unchecked"),("compact instruction parser","InstructionIterator")]))
L.append(P("P27","Inner instructions run exactly as requested, in order, all or nothing",
"The inner instructions of an accepted request are executed exactly once each, in the submitted order, with exactly the submitted program, accounts, flags and data, and no others. If any of them fails, nothing of the request takes effect.",
["inputs","histories","fault_sequences"],"every list of inner instructions up to the limits (0 to 255 entries, repeated accounts, long data), failures and aborts at every point",
"Tests run one or two inner instructions and look at final balances only.",
["instructions/src/lib.rs","instructions/src/compact_instructions.rs",S,PA+"sub_account_sign_v1.rs",PA+"sub_account_sign_v2.rs"],
[("compact encoding and decoding","compact_instructions, InstructionIterator, InstructionHolder::execute")]))
L.append(P("P28","Valid requests keep working after any history and any faults",
"Whatever requests, failures, replays, donations, aborts and clock jumps a wallet has been through, a correctly authorised request within the rules succeeds when it is delivered, without needing any repair step. In particular the founding role of an open wallet can always spend, manage roles and close, and a limited role can always use what is left of its allowance.",
["histories","schedules","fault_sequences"],"every reachable wallet state, probed with correct requests of every role after faults stop",
"Lock-out states arise only after particular histories; tests never probe liveness after failures.",
["program/src/lib.rs",S,PA+"update_authority_v1.rs",PA+"create_v1.rs"],
[("absence of stuck states","validation code throughout")]))
L.append(P("P29","Signing for the wallet is impossible from inside another program",
"Requests that make the wallet or a sub-account sign inner instructions take effect only as top-level instructions of a transaction, never when called by another program, whatever authorisation they carry. A program invoked by the wallet can therefore not make the wallet sign again in the same call.",
["inputs","schedules"],"adversarial programs calling back into the wallet program with valid and stale requests, directly and during an inner instruction",
"No test runs an adversarial callee with a valid nested request.",
[S,PA+"sub_account_sign_v1.rs",PA+"sub_account_sign_v2.rs","program/src/util/mod.rs"],
[("stack height check","get_stack_height in the signing instructions")]))
L.append(P("P30","Managing a wallet never spends its funds or strands rent",
"Instructions that manage roles, sessions, sub-accounts or settings never take lamports or tokens from the wallet, its configuration or its sub-accounts: any extra rent is paid by the named payer, in exactly the amount needed (rent freed by shrinking may return to that payer), and the configuration is rent exempt after every accepted instruction. Lamports are never created, lost or sent to a party the request does not name.",
["histories","inputs"],"every history of growing and shrinking configurations, payers with any balance, donations and pre-funded addresses",
"Rent bookkeeping is only visible over sequences of resizes.",
[PA+"add_authority_v1.rs",PA+"update_authority_v1.rs",PA+"remove_authority_v1.rs",PA+"create_sub_account_v2.rs",PA+"set_rent_claimer_v1.rs"],
[("rent top-up and refund on resize","the resize blocks of each instruction")]))
L.append(P("P31","What clients build and read agrees with what the program stores and runs",
"Decoding a wallet with the published reading functions yields exactly the roles, identifiers, authorities, permissions and counters the program enforces, in every reachable state, and looking up a role by key or number finds exactly the role the program would use. Requests assembled with the published compaction helper expand on-chain to the very instructions the client passed in, in order, with the privileges of repeated accounts merged.",
["histories","inputs","configurations"],"every reachable wallet state and every list of client instructions with shared, repeated and privileged accounts",
"Round trips are tested on a few fixed wallets and not against the program that consumes them.",
[ST+"swig.rs",ST+"role.rs",ST+"action/mod.rs","instructions/src/compact_instructions.rs"],
[("reader API","SwigWithRoles, Role::get_action*"),("request compaction","compact_instructions*")],
None,["reader results on every state the simulator reaches","the cross-program calls the program makes"]))
import os
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in L: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(L))
