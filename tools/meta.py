#!/usr/bin/env python3
"""writes /verif/properties.jsonl and /verif/MANIFEST.json (run by hand after editing; no check reads this file)"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = 'contracts/'
IRC, FT, ICXT = C + 'irc_token/irc_token.py', C + 'flexible_token/flexible_token.py', C + 'icx_token/icx_token.py'
REG, NET, CONV = C + 'score_registry/score_registry.py', C + 'network/network.py', C + 'converter/converter.py'
OWN, MAN, HOLD = C + 'utility/owned.py', C + 'utility/managed.py', C + 'utility/token_holder.py'
CTL, FORM = C + 'utility/flexible_token_controller.py', C + 'formula/fixed_map_formula.py'
STO, PROXY, UTIL = C + 'utility/storage.py', C + 'utility/proxy_score.py', C + 'utility/utils.py'
GEN = C + 'formula/auto_generate'
HIST = 'every sequence of transactions by any accounts and contracts'

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, tech, note, level='exploration'):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, tech=tech, note=note, level=level))


MON = 'runtime monitor (executable specification of every contract call) over randomized and hostile transaction histories'
TRUST = ('Held on the executions counted in the evidence file; trusts iconservice 1.1.2 (its real call, event, type '
         'conversion and container-database code runs) and the in-memory ledger around it.')

prop('P01', 'Token supply equals the sum of balances',
     'For the plain token, the flexible token and the ICX token, the total supply always equals the sum of all holders\' '
     'balances, and neither the supply nor any balance is ever negative. The supply of the plain token never changes after '
     'installation; the other supplies change only by issuing, destroying, depositing or withdrawing, by exactly that amount.',
     ['histories', 'inputs'], HIST + ', including self-transfers, re-entrant recipients and amounts of 0, all, more than held and far beyond 2^64',
     'Tests check balances of one or two accounts after a single call; conservation is a statement over all holders after every history.',
     [IRC, FT, ICXT], [('balance and supply updates of the plain token', IRC + ':_transfer'), ('issue/destroy', FT + ':issue, destroy'),
                       ('deposit/withdraw', ICXT + ':deposit, withdrawTo')],
     ['totalSupply', 'balanceOf'], MON, TRUST)
prop('P02', 'A transfer moves exactly the stated amount or nothing',
     'A successful token transfer lowers the sender\'s balance and raises the recipient\'s by exactly the amount, changing no other '
     'balance, and leaves the sender unchanged when sender and recipient are the same. A transfer of a negative amount or of more than the '
     'sender holds is refused, and any transfer the holder can afford is accepted when transfers are enabled and the recipient consents.',
     ['histories', 'inputs'], HIST + ' and every sender, recipient (account, contract, oneself, the token, the zero address), amount and data',
     'Tests transfer one amount between two mocked accounts; aliasing, boundary amounts and nested transfers are not reached.',
     [IRC, FT, ICXT], [('checks and updates of a transfer', IRC + ':transfer, _transfer')], ['transfer', 'balanceOf'], MON, TRUST)
prop('P03', 'Contract recipients are notified exactly once and may refuse',
     'When tokens are transferred to a contract, that contract is notified exactly once, with the true sender, amount and data (or the '
     'documented placeholder when no data is given), after the balances have moved; plain accounts are never notified. If the contract '
     'refuses or has no notification method, the whole transfer is undone.',
     ['histories', 'inputs', 'fault_sequences'], HIST + '; recipients that accept, refuse, lack the method, or call back into any contract while being notified',
     'Tests replace the recipient with a mock and look at one call; they cannot see re-entrancy, ordering against state, or undoing.',
     [IRC, FT, ICXT], [('hand-over to the recipient', IRC + ':_transfer'), ('interface proxy', PROXY)], ['tokenFallback calls', 'balanceOf seen by the recipient'], MON, TRUST)
prop('P04', 'Flexible supply is controlled by the owner (or the holder for burning)',
     'Only the owner of a flexible token can issue it, never a non-positive amount, nor to the zero address or the token itself; tokens can be destroyed '
     'only by the owner or by their holder, in a positive amount not above the holding. While the owner has disabled transfers no transfer succeeds, though issuing '
     'and destroying still work; issuing and destroying change exactly one balance and the supply by the amount.',
     ['histories', 'inputs'], HIST + ', any caller, target and amount, interleaved with ownership changes and transfer switches',
     'Tests call each method once as the owner and once as a stranger with mocked storage.',
     [FT, CONV], [('owner checks and supply changes', FT + ':issue, destroy'), ('transfer switch', FT + ':disableTransfer, require_transfer_allowed')],
     ['issue', 'destroy', 'disableTransfer', 'totalSupply', 'balanceOf'], MON, TRUST)
prop('P05', 'The ICX token is fully backed and no ICX is lost',
     'The ICX held by the ICX token contract always equals its token supply: depositing (explicitly or by a plain payment) mints exactly the ICX '
     'paid in, withdrawing burns exactly the ICX paid out to the chosen recipient, and nobody can withdraw more than they hold. '
     'ICX tokens cannot be sent to the ICX token itself, and contract entry points that are not meant to take payment refuse ICX.',
     ['histories', 'inputs', 'fault_sequences'], HIST + ', including re-entrant recipients of the paid-out ICX and recipients that refuse it',
     'Tests mock the ICX transfer, so backing, re-entrancy and refused payouts are never exercised.',
     [ICXT, NET], [('mint/burn against payment', ICXT + ':fallback, deposit, withdraw, withdrawTo'), ('wrapping of ICX', NET + ':convertFor')],
     ['ICX balances', 'totalSupply', 'balanceOf'], MON, TRUST)
prop('P06', 'Ownership changes hands only in two steps',
     'The owner of a contract changes only when the account or contract the current owner last nominated accepts; nobody else can nominate or accept, naming '
     'the current owner is refused, a later nomination replaces the earlier one, and acceptance clears the nomination. '
     'A converter\'s owner can nominate and accept in the same way for the flexible token through the converter.',
     ['histories'], HIST + ' of nominations, re-nominations and acceptances over all five owned contracts, by every role',
     'Tests walk the happy path and one wrong caller; stale nominations, repeated acceptance and role overlap are histories.',
     [OWN, CTL, CONV], [('two-step hand-over', OWN + ':transferOwnerShip, acceptOwnerShip'), ('pass-through to the token', CTL + ':transferTokenOwnership, acceptTokenOwnership')],
     ['getOwner', 'getNewOwner'], MON, TRUST)
prop('P07', 'Converter management changes hands only in two steps',
     'The manager of a converter starts as its deployer and changes only when the party last nominated by the owner or the current manager accepts; '
     'nobody else can nominate or accept, naming the current manager is refused, and acceptance clears the nomination. '
     'Owner and manager are independent: changing one leaves the other alone.',
     ['histories'], HIST + ' of management nominations and acceptances, interleaved with ownership changes',
     'Tests check single steps with mocked storage, and never a converter installed for real.',
     [MAN, CONV], [('two-step hand-over', MAN + ':transferManagement, acceptManagement')], ['getManager', 'getNewManager'], MON, TRUST)
prop('P08', 'Every privileged operation is refused to everyone but its role',
     'Every operation that changes settings, roles, supply or holdings of a contract on someone else\'s behalf is accepted only from the direct caller holding the '
     'documented role at that moment (owner, or owner or manager), and a refused call changes nothing. Having deployed the contract, having held the role earlier, being nominated for it, '
     'holding it on another contract, or having started the transaction that led to the call does not help.',
     ['histories', 'inputs'], 'every privileged method of the six contracts x every kind of caller (owner, former owner, deployer, nominee, manager, former manager, stranger, contract called by the owner, the contracts themselves), in every role history generated, under every combination of settings and relations among the parties that the directed workloads reach',
     'Tests try one stranger on some methods; the full matrix of methods, roles and role histories is not covered.',
     [OWN, MAN, HOLD, CTL, CONV, FT, REG, NET], [('owner check', OWN + ':require_owner_only'), ('owner-or-manager check', MAN + ':require_owner_or_manager_only')],
     ['all external methods'], 'runtime monitor over an exhaustive caller x privileged method matrix plus randomized role histories', TRUST)
prop('P09', 'The registry maps each known name to the last registered contract',
     'Looking up a name yields the contract last registered under it, or the zero address when it was never registered, was unregistered, or is not a known name. '
     'Only the owner can register or unregister, only known names and only contract addresses can be registered, only registered names can be unregistered, and a fresh registry lists itself.',
     ['histories', 'inputs'], HIST + ' of registrations and removals with every kind of name and address',
     'Tests register one address with mocked storage.', [REG],
     [('registration rules', REG + ':registerAddress, unregisterAddress'), ('lookup', REG + ':getAddress')], ['getAddress', 'getScoreIds'], MON, TRUST)
prop('P10', 'Converters follow registry upgrades, and can go back',
     'A converter\'s registry changes only by following the successor its current registry announces (never to nothing or to itself) or by an owner or manager restoring the previous one. '
     'Following is open to everyone unless switched off, then only to the owner; the registry left behind is remembered, and restoring switches following off.',
     ['histories'], HIST + ' of registrations, updates, restores and switches by every role',
     'Tests mock the registry and check a single update.', [CONV, REG],
     [('update and restore', CONV + ':updateRegistry, restoreRegistry, disableRegistryUpdate')], ['getRegistry', 'getPreviousRegistry', 'isAllowRegistryUpdate'], MON, TRUST)
prop('P11', 'Connector configuration stays well-formed',
     'Each connector has a weight between 1 and 1,000,000 ppm, the weights of a converter never add up to more than 1,000,000 ppm, no token is a connector twice, and neither the converter itself, its flexible token nor the zero address is a connector. '
     'Connectors are added only by the owner while the converter is not yet in charge of its token, are never removed, keep their order and settings until the owner changes them, and an update changes exactly the named connector as requested.',
     ['histories', 'inputs'], HIST + ' of additions, updates and switches with arbitrary weights, tokens and virtual balances',
     'Tests add one or two connectors with mocked storage; the total-weight invariant spans many updates.',
     [CONV], [('weight and identity checks', CONV + ':addConnector, _add_connector, updateConnector, disableConnectorPurchases')],
     ['getConnector', 'getConnectorAt', 'getConnectorTokenCount', 'getToken'], MON, TRUST)
prop('P12', 'A conversion pays exactly what the converter quotes',
     'For any pair of tokens and any positive amount, a conversion executed now pays exactly the amount the converter\'s own quote answers now, and a conversion the converter would refuse to quote does not go through. '
     'A quoted conversion with an acceptable minimum return is not refused (unless it would empty a reserve, or conversions are switched off).',
     ['histories', 'inputs'], 'every reachable converter state (virtual and actual balances, weights, fees, switches) and every token pair and amount',
     'Tests compare quote and execution through mocks; agreement must hold in every state, in particular with virtual balances.',
     [CONV, NET, FORM], [('quotes', CONV + ':getReturn and its three quote methods'), ('execution', CONV + ':tokenFallback, _convert')], ['getReturn', 'payout transfers'], MON, TRUST)
prop('P13', 'Nobody receives less than the minimum return they asked for',
     'Whenever a conversion succeeds, the beneficiary has been handed at least the minimum return stated in the request; otherwise the whole request is cancelled and the sender keeps the tokens or ICX. '
     'A minimum return of zero or less is refused. This holds for every hop of every path, whoever runs the contracts along it.',
     ['histories', 'inputs', 'fault_sequences'], HIST + ', minimum returns around the quote, paths through converters, plain accounts and misbehaving contracts',
     'Tests use mocked converters that always return enough.', [NET, CONV],
     [('minimum return check of a converter', CONV + ':_convert'), ('check of the path result', NET + ':_convert_for_internal')], ['payout transfers', 'balances'], MON, TRUST)
prop('P14', 'A conversion changes exactly the books it should',
     'A purchase issues exactly the returned amount of the flexible token, a sale destroys exactly the amount sold and pays the connector token out, a cross conversion touches no flexible supply; reserves move by exactly the amounts paid in and out. '
     'A connector with a virtual balance enabled has that balance raised or lowered by exactly the same amounts, one without it keeps its stored virtual balance unchanged, and nothing else changes.',
     ['histories', 'inputs'], 'every conversion in every reachable configuration (virtual or actual on either side)',
     'Tests check one configuration with mocks; most of the matrix of directions and balance modes is not covered.',
     [CONV, FT], [('book-keeping of conversions', CONV + ':_buy, _sell, _convert_cross_connector')], ['balances', 'supply', 'getConnector'], MON, TRUST)
prop('P15', 'Conversions never pay more than the price curve allows',
     'No conversion pays more than the exact bonding-curve price, so no sequence of purchases, sales and cross conversions extracts value from the reserves. '
     'A conversion never pays out an entire reserve, except for the sale of the entire flexible supply.',
     ['histories', 'inputs'], 'every amount, weight, balance and supply, and every sequence of conversions (round trips, pumps, liquidation) at zero and non-zero fees',
     'Tests compare a handful of prices with recorded values; rounding in the converter\'s favour must hold everywhere.',
     [CONV, FORM], [('rounding down in the formula', FORM), ('depletion checks', CONV + ':_sell, _convert_cross_connector')],
     ['payouts', 'connector balances', 'supply'], 'runtime monitor: reserve-curve invariant in exact decimal arithmetic after every conversion; high-precision price oracle', TRUST)
prop('P16', 'The conversion fee is exact and capped',
     'The fee is set only to values between zero and the maximum fixed at installation (itself at most 1,000,000 ppm). Every quote and payout is exactly the formula\'s amount reduced by the fee '
     'once for a purchase or sale and twice for a cross conversion, rounded down, and the reported fee is the rest.',
     ['histories', 'inputs'], 'every fee setting, direction and amount in generated histories',
     'Tests check single amounts; exactness of rounding and the cap must hold for every value.', [CONV],
     [('fee application', CONV + ':getFinalAmount'), ('fee cap', CONV + ':setConversionFee')], ['getReturn', 'getFinalAmount', 'getConversionFee'], MON, TRUST)
prop('P17', 'Conversions happen only when allowed',
     'A converter converts only tokens it is handed by the network its registry currently names, in a well-formed request, between two different tokens it is responsible for, while it is in charge of its flexible token and conversions are enabled. '
     'Purchases paid with a connector whose purchases are disabled, or cross conversions into such a connector, are refused. Everything else sent to it is refused.',
     ['histories', 'inputs'], HIST + ', direct transfers and forged notifications by every kind of caller, malformed requests, every combination of switches',
     'Tests mock the registry and network; forged calls and switch combinations over time are not reached.',
     [CONV, REG], [('gate in the notification handler', CONV + ':tokenFallback'), ('quote gates', CONV + ':getReturn')], ['tokenFallback', 'getReturn', 'disableConversions'], MON, TRUST)
prop('P18', 'Reserves can be put in and taken out only by the rules',
     'While a converter is in charge of its token, nobody (its owner included) can withdraw connector tokens from it; before or after, the owner can, and the owner or manager can deposit them by plain transfer only then. '
     'Tokens stranded in a token, network or converter can be withdrawn only by the owner, in a positive amount, never to the zero address or back to itself, and arrive in full.',
     ['histories', 'inputs'], HIST + ' through the life cycle of a converter: set-up, activation, trading, hand-back, liquidation, upgrade',
     'Tests check withdrawal with mocked activity; life-cycle histories are not exercised.',
     [CONV, CTL, HOLD], [('withdrawal gate', CONV + ':withdrawTokens'), ('generic withdrawal', HOLD + ':withdrawTokens'), ('initial deposits', CONV + ':tokenFallback')],
     ['withdrawTokens', 'balanceOf'], MON, TRUST)
prop('P19', 'Only valid conversion paths are accepted',
     'A path is accepted only if it has an odd number of 3 to 21 entries, starts at the token actually handed over, and visits no flexible token twice as a hop; quotes follow the same rules. '
     'Converting ICX starts only at an ICX token the network\'s owner has registered, payout in ICX happens exactly when the path ends at one, and any malformed request is refused.',
     ['inputs', 'histories'], 'every path (valid and mutated, 1 to 10 hops and beyond) and every malformed request body, under every registration history',
     'Tests try a few paths against mocks.', [NET],
     [('path validation', NET + ':_require_valid_path, _convert_path'), ('ICX token registration', NET + ':registerIcxToken')],
     ['convert', 'convertFor', 'tokenFallback', 'getExpectedReturnByPath'], MON, TRUST)
prop('P20', 'The network passes everything through and keeps nothing',
     'Each hop of a conversion passes the full result of the previous hop to the converter currently in charge, and the full final result goes to the requested beneficiary (by default the sender), as ICX when the path ends at a registered ICX token. '
     'The network\'s own holdings are the same before and after, including tokens stranded there earlier, and calling its notification method directly achieves nothing.',
     ['histories', 'inputs', 'fault_sequences'], HIST + ' with stranded tokens, re-entrant beneficiaries, nested conversions and forged notifications',
     'Tests mock every converter and token, so nothing actually passes through.', [NET, ICXT],
     [('hop loop', NET + ':_convert_by_path'), ('hand-over', NET + ':_convert_for_internal')], ['balances of the network and the beneficiary', 'hop transfers'], MON, TRUST)
prop('P21', 'A path pays exactly what the network quotes for it',
     'For any valid path and positive amount, executing the conversion now pays exactly what the network\'s path quote answers now, which is the composition of the converters\' own quotes; if the quote is refused the conversion fails too. '
     'This holds for paths in which every hop is run by a different converter.',
     ['histories', 'inputs'], 'every reachable state, paths of 1 to 10 hops over shared connector tokens, any amount',
     'Tests check the quote against mocked converters only.', [NET, CONV],
     [('path quote', NET + ':getExpectedReturnByPath'), ('path execution', NET + ':_convert_by_path')], ['getExpectedReturnByPath', 'payouts'], MON, TRUST)
prop('P22', 'A request takes full effect or none',
     'If any step of a request fails - a refused notification, a failing inner call at any point, a broken rule - the whole request fails and leaves every contract\'s state, every balance and the event log untouched. '
     'No contract carries on after a call it depends on has failed.',
     ['fault_sequences', 'crash_points', 'histories'], 'a failure injected before and after every inner call of every generated transaction, plus all natural failures',
     'Tests have no way to make the n-th inner call fail.', [IRC, FT, ICXT, NET, CONV, HOLD, CTL],
     [('no contract swallows a failure', 'all contracts'), ('rollback of the platform', 'iconservice')], ['complete ledger', 'event log'],
     'fault injection at every inner call with a whole-ledger comparison and the runtime monitor', TRUST, 'fault_enumeration')
prop('P23', 'Event logs tell exactly what happened',
     'Every transfer, issue, destruction, deposit, withdrawal, conversion, fee change, enabling or disabling of conversions, registration and change of owner or manager emits exactly its documented events with the true values (amounts, parties, supply and balances after the change), and nothing else does. '
     'Events of failed requests never appear.',
     ['histories', 'inputs'], 'every transaction of every generated history',
     'Tests mock the event methods or check one of them.', [IRC, FT, ICXT, NET, CONV, REG, OWN, MAN],
     [('event declarations and emission', 'all contracts')], ['event logs of transactions'], 'online monitor of a trace specification: expected vs. emitted events of every call', TRUST)
prop('P24', 'The pricing formula matches the bonding curve',
     'For every supported supply, balance, weight and amount, purchase, sale and cross-conversion prices never exceed the exact bonding-curve value and fall short of it by at most one unit plus a relative error '
     'below 10^-30 (growth exponents up to 16) or 10^-10 of the reserve (beyond, for sales and cross conversions).',
     ['inputs'], 'the whole input domain: operands up to 2^129, weights 1 to 1,000,000, amounts from 1 to everything',
     'Tests compare a few recorded values.', [FORM],
     [('logarithm, exponential and power approximations', FORM)], ['calculate_purchase_return', 'calculate_sale_return', 'calculate_cross_connector_return'],
     'differential oracle: 120-digit decimal evaluation of the documented formulas on fuzzed inputs', 'Accuracy bounds are those derived in DESIGN.md; purchases with growth exponents of 16 and more are checked from above only (documented limitation).')
prop('P25', 'Formula boundary and round-trip rules hold',
     'Zero in gives zero out; selling the entire supply returns exactly the whole balance; equal weights and 100% weights give the exact rounded-down linear or reciprocal result; a sale or cross conversion never exceeds the reserve. '
     'Buying and immediately selling back, or converting there and back, never returns more than was put in, at any scale.',
     ['inputs'], 'the whole input domain, at boundaries and at random, as single calls and as round trips',
     'Tests check a few points, no round trips.', [FORM], [('special cases', FORM)],
     ['calculate_purchase_return', 'calculate_sale_return', 'calculate_cross_connector_return'], 'metamorphic runtime oracle on fuzzed inputs', 'Held on the inputs counted in the evidence file.')
prop('P26', 'The formula rejects what it cannot price and prices the rest',
     'A zero or negative supply or balance, a weight outside 1 to 1,000,000, a sale above the supply, and operands beyond the supported size are refused rather than mispriced. '
     'Every other input with non-negative amounts is answered with a non-negative integer.',
     ['inputs'], 'the whole input domain and its surroundings', 'Tests try a few invalid inputs.', [FORM, CONV],
     [('input validation', FORM)], ['calculate_purchase_return', 'calculate_sale_return', 'calculate_cross_connector_return', 'getReturn'],
     'boundary fuzzing with a refusal oracle, on the formula and through deployed converters', 'Held on the inputs counted in the evidence file.')
prop('P27', 'The deployed formula is the one its generators produce',
     'The constants and unrolled series in the deployed formula are exactly what the code generators in the repository print, and the deployed formula computes, bit for bit, the documented fixed-point algorithm assembled from them.',
     ['programs', 'inputs'], 'every table entry and branch reachable through the public formula, driven at its thresholds, plus random inputs',
     'Nothing in the tests runs the generators or compares them with the deployed code.', [FORM, GEN],
     [('generators', GEN + '/print_*.py'), ('generated tables and series', FORM)], ['generator output', 'formula results'],
     'translation check at run time: reference assembled from generator output vs. deployed formula, bit-exact on branch-directed inputs',
     'Compares behaviour, not text; table entries no input can reach are not compared.')
prop('P28', 'Named contract fields always reflect the ledger',
     'A value assigned to a declared contract field is what any later read yields - in the same call, a later transaction, or a fresh instance over the same ledger - and fields of one store never disturb each other or those of another contract. '
     'Collections are read and written in place, undeclared attributes behave as ordinary ones, and nothing is written to the ledger except by assignment.',
     ['histories', 'inputs'], 'every sequence of declarations, reads, writes and re-instantiations over all field kinds and value types',
     'Tests set a few fields on one instance.', [STO], [('attribute redirection', STO)], ['field reads', 'ledger contents'],
     'model-based runtime monitor: reference dictionary vs. real store over random operation sequences', TRUST)
prop('P29', 'Interface proxies forward every declared call faithfully',
     'A proxy made from an interface offers exactly the interface\'s methods and forwards each call, with its method name and arguments, to the given contract on behalf of the calling contract, handing back result or failure; '
     'proxies for different interfaces or addresses never mix, however often and in whatever order they are made.',
     ['inputs', 'histories', 'programs'], 'every interface in the repository and synthetic ones, every method, arguments positional, by name and defaulted, interleaved creation orders',
     'Tests check one or two interfaces.', [PROXY, C + 'interfaces'], [('proxy class creation and caching', PROXY)], ['calls arriving at the target'],
     'recording target contracts: arriving calls compared with the calls made', TRUST)
prop('P30', 'Every built package is self-contained and faithful',
     'Each package that the build tool produces contains byte-identical copies of the sources it needs, its own manifest naming an existing main class, and the licence notice where configured; no tests or caches. '
     'It loads and deploys with nothing else available, and the contracts loaded from packages behave exactly like the sources.',
     ['programs', 'configurations', 'histories'], 'every contract and every subset and order of contracts, both output formats; monitored histories run on the packaged contracts',
     'Tests only run when a build tree exists and do not execute the packages.', ['contract_generator/builder.py', 'contract_generator/config.py', 'contract_generator/writer.py', 'build.py'],
     [('dependency lists', 'contract_generator/config.py'), ('collection of files', 'contract_generator/builder.py')], ['package contents', 'isolated import', 'deployed behaviour'],
     'packages built for real, imported in isolated interpreters and driven under the runtime monitor', TRUST)
prop('P31', 'Building touches only its own output',
     'Building into a directory replaces exactly the requested packages under it, leaving no stale files in them; unpacking a built archive replaces the whole output directory; neither changes anything else. '
     'Building the same sources again gives the same content, as a directory or as an archive. '
     'Cleaning removes the output directory and nothing else, and an unknown contract name is reported without writing anything.',
     ['histories', 'configurations', 'fault_sequences'], 'sequences of builds and cleans with arbitrary subsets, pre-existing stale and foreign files, and both output formats',
     'Tests build once.', ['contract_generator/builder.py', 'contract_generator/writer.py', 'build.py'],
     [('writers', 'contract_generator/writer.py'), ('command line', 'build.py')], ['file system before and after', 'archive content'],
     'file-system monitor (content digests before and after) over random build histories in scratch copies', 'Runs on scratch copies of the repository only.')
prop('P32', 'Behaviour depends on the ledger alone',
     'Contracts keep nothing but the ledger: dropping and re-creating every contract instance between any two requests, or installing the same code again as an update, changes no outcome, no event and no stored byte.',
     ['crash_points', 'histories'], 'restart or update between any two transactions of any generated history',
     'Tests use one instance throughout.', [IRC, FT, ICXT, REG, NET, CONV, STO, PROXY],
     [('all state in container databases', 'all contracts'), ('update hooks', 'on_update of all contracts')], ['results, events and ledger of twin runs'],
     'twin execution: identical histories with and without restarts/updates, ledgers compared byte for byte', TRUST)
prop('P33', 'Queries never change anything and always answer',
     'Read-only methods leave ledger, balances and events untouched, answer the same inside a transaction and as a query, and answer truthfully in every reachable state for well-formed arguments; state-changing methods called as queries have no effect. '
     'Whatever a contract does with an answer it was given stays without effect on the contract that gave it.',
     ['histories', 'inputs'], 'every read-only method of every contract in every state of generated histories, asked by accounts, in transactions and by contracts in the middle of one',
     'Tests call getters on mocks.', [IRC, FT, ICXT, REG, NET, CONV], [('read-only declarations', 'all contracts')], ['all read-only methods', 'ledger digest'], MON, TRUST)
prop('P34', 'Installation creates the documented initial state or nothing',
     'A freshly installed contract has exactly the documented initial state: name, symbol, decimals, supply with the deployer, roles, switches, connectors and the fee cap as given. '
     'Invalid parameters (negative supply or decimals, zero token or registry address, fee cap or weight out of range) are refused leaving nothing behind, valid ones are accepted, and name, symbol, decimals and version never change later.',
     ['inputs', 'configurations', 'histories'], 'every combination of valid and invalid installation parameters, and every later history',
     'Tests call the install hook on mocked storage with one parameter set.', [IRC, FT, ICXT, REG, NET, CONV, OWN, MAN],
     [('install hooks', 'on_install of all contracts')], ['all getters after installation', 'ledger'], 'runtime oracle on installations with fuzzed parameters', TRUST)

NA = []
if __name__ == '__main__':
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                     why_tests_cant=p['why'],
                     anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                                  observe_at=p['observe'], hook_needed=None))
            f.write(json.dumps(d) + '\n')
    checks = [dict(property=p['id'], quick_cmd=f'./check {p["id"]} quick', thorough_cmd=f'./check {p["id"]} thorough',
                   technique=p['tech'], level=p['level'], level_note=p['note']) for p in P]
    m = dict(version=1, setup_cmd='./setup', checks=checks, not_applicable=NA,
             notes='All checks observe executions of the real contract code on an in-memory ledger; /repo carries no hooks '
                   '(every observation point is the platform boundary), only fix: commits.')
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')
