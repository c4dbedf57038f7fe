"""What each check runs: scenarios of the harness (with numbers of traces) and
models of the specification."""
# Scenarios of packages other than the main one.
PACKAGE = dict(clog='comp', cprefix='comp', cmath='comp', cladder='comp', csuite='comp', cwire='comp', liar='liar')
MODELS = {
    'SuitesMC': dict(module='SuitesMC', cfg='SuitesMC.cfg', workers=2),
    'ManagedMC': dict(module='ManagedMC', cfg='ManagedMC.cfg', thorough_cfg='ManagedMC4.cfg', workers=2),
    'LadderMC': dict(module='LadderMC', cfg='LadderMC.cfg', thorough_cfg='LadderMCt.cfg', workers=2),
    'LogMC': dict(module='LogMC', cfg='LogMC.cfg', thorough_cfg='LogMCt.cfg', workers=4),
    'PrefixMC': dict(module='PrefixMC', cfg='PrefixMC.cfg', thorough_cfg='PrefixMCt.cfg', workers=4),
    'IbstMC': dict(module='IbstMC', cfg='IbstMC.cfg', thorough_cfg='IbstMCt.cfg', workers=3),
    'KatieMC': dict(module='KatieMC', cfg='KatieMC.cfg', thorough_cfg='KatieMCt.cfg', workers=4),
    # entries with many versions
    'KatieMC-versions': dict(module='KatieMC', cfg='KatieMCv.cfg', thorough_cfg='KatieMCvt.cfg', workers=4),
    # one model, by what the log and its users may do and how long
    'AdversaryMC': dict(module='AdversaryMC', cfg='AdversaryMC.cfg', thorough_cfg='AdversaryMCt.cfg', workers=4),
    'AdversaryMC-values': dict(module='AdversaryMC', cfg='AdversaryMCv.cfg', workers=4),
    'AdversaryMC-search': dict(module='AdversaryMC', cfg='AdversaryMCs.cfg', thorough_cfg='AdversaryMCst.cfg', workers=4),
    'AdversaryMC-update': dict(module='AdversaryMC', cfg='AdversaryMCu.cfg', thorough_cfg='AdversaryMCut.cfg', workers=4),
    'AuditorMC': dict(module='AuditorMC', cfg='AuditorMC.cfg', thorough_cfg='AuditorMCt.cfg', workers=3),
    'AuditorMC-long': dict(module='AuditorMC', cfg='AuditorMC1.cfg', thorough_cfg='AuditorMC1t.cfg', workers=3),
    'WireMC': dict(module='WireMC', cfg='WireMC.cfg', thorough_cfg='WireMC7.cfg', workers=2),
}
G = ('e2e', 48)          # the whole system, honest
T = ('tamper', 48)       # altered messages
E = ('evil', 48)         # a log that breaks the rules
PLAN = {
    'C01': dict(traces=[('clog', 64), ('e2e', 32)], models=['LogMC']),
    'C02': dict(traces=[('clog', 64), ('tamper', 32)], models=['LogMC']),
    'C03': dict(traces=[('cprefix', 48), ('e2e', 32)], models=['PrefixMC']),
    'C04': dict(traces=[('cprefix', 48), ('tamper', 32)], models=['PrefixMC']),
    'C05': dict(traces=[('cladder', 64), ('e2e', 48)], models=['LadderMC']),
    'C06': dict(traces=[('cmath', 64), ('e2e', 48)], models=['IbstMC']),
    'C07': dict(traces=[('e2e', 160)], plans=[('KatieMC', 200), ('KatieMC-versions', 100)], needs=['verify:ok', 'srv:search:ok']),
    'C08': dict(traces=[('tamper', 64), ('sweep', 40), ('evil', 64), ('liar', 84)], models=['AdversaryMC-values', 'AdversaryMC-search']),
    'C09': dict(traces=[('e2e', 80), ('evil', 96), ('clock', 32), ('liar', 84)], models=['AdversaryMC']),
    'C10': dict(traces=[('liar', 336), ('e2e', 96), ('evil', 64)], plans=[('KatieMC-versions', 100)], models=['AdversaryMC-search']),
    'C11': dict(traces=[('liar', 252), ('e2e', 96), ('evil', 64)], models=['AdversaryMC-search', 'AdversaryMC-update']),
    'C12': dict(traces=[('e2e', 144), ('tamper', 32), ('managed', 32), ('liar', 84)], plans=[('KatieMC', 80)], models=['AdversaryMC-update']),
    'C13': dict(traces=[('e2e', 128), ('clock', 48)]),
    'C14': dict(traces=[('crash', 240), ('store', 120), ('e2e', 32)]),
    'C15': dict(traces=[('store', 360), ('backend', 64), ('e2e', 32)]),
    'C16': dict(traces=[('e2e', 128), ('audit', 64)], models=['PrefixMC', 'AuditorMC']),
    'C17': dict(traces=[('audit', 128), ('e2e', 64), ('evil', 48)], models=['AuditorMC', 'AuditorMC-long']),
    'C18': dict(traces=[('cwire', 48), ('e2e', 32), ('tamper', 32), ('sweep', 24)], models=['WireMC']),
    'C19': dict(traces=[('tamper', 64), ('sweep', 72), ('cwire', 24), ('cprefix', 24), ('managed', 24)]),
    'C20': dict(traces=[('managed', 144), ('e2e', 16), ('tamper', 32)], models=['ManagedMC']),
    'C21': dict(traces=[('faults', 200), ('store', 96), ('e2e', 32), ('audit', 32)]),
    'C22': dict(traces=[('csuite', 64), ('real', 48)], models=['SuitesMC']),
    'C23': dict(traces=[('clock', 160), ('e2e', 64), ('cmath', 16)]),
}
