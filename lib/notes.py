COMMON = ('Bounded: holds for every value within the bounds listed per part in '
          'the evidence file (unwinding assertions on), nothing is claimed '
          'outside them. Trusts CBMC 6.11, its C semantics for x86-64 and the '
          'reference written in the harness. Counterexamples are reported '
          'only after they reproduced in a native build of the same sources.')
LEVEL = {
    'C01': 'pt_pkt_next on every 20-byte buffer, position and erratum set.',
    'C02': 'pt_pkt_next against an independent reference decoder.',
    'C03': 'pt_enc_next/pt_pkt_next round trip for every packet.',
    'C04': 'Search functions against a reference over all small buffers.',
}
NA = {
    'C30': 'ptxed needs XED, which is not installed, so it is neither built '
           'nor testable here; its disassembly goes through code that is not '
           'in this repository.',
}
