"""What decides each property (see DESIGN.md)."""
MC = 'TLA+ model checking + trace validation of the real code against the specification (TLC)'
SHA_MC = [dict(module='HashStream', cfg='MC_HashStream.cfg')]
def mptmut(*ds, **k):
    return [dict(module='MC_Mpt', cfg=f'MC_Mpt_{d}.cfg', expect_violation='Sound', **k) for d in ds]
def mptmc(quick, thorough):
    return [dict(module='MC_Mpt', cfg_quick='MC_Mpt.cfg', cfg_thorough='MC_Mpt_thorough.cfg')] + mptmut(*quick) + mptmut(*thorough, tier='thorough')
MERKLE_MC = [dict(module='MC_Merkle', cfg_quick='MC_Merkle.cfg', cfg_thorough='MC_Merkle_thorough.cfg'),
             dict(module='MC_Merkle', cfg='MC_Merkle_side.cfg', expect_violation='Sound')]
EDMC = [dict(module='MC_Edwards', cfg_quick='MC_Edwards.cfg', cfg_thorough='MC_Edwards_thorough.cfg')]
def edmut(*ds):
    return [dict(module='MC_Edwards', cfg=f'MC_Edwards_{d}.cfg', expect_violation={'oddbit': 'Single'}.get(d, 'Exact')) for d in ds]
BLSMC = [dict(module='MC_Bls', cfg_quick='MC_Bls.cfg', cfg_thorough='MC_Bls_thorough.cfg')]
def blsmut(*ds):
    return [dict(module='MC_Bls', cfg=f'MC_Bls_{d}.cfg', expect_violation={'untwist': 'Bilinear', 'cof': 'Points'}[d]) for d in ds]
SWUMC = [dict(module='MC_Swu', cfg_quick='MC_Swu.cfg', cfg_thorough='MC_Swu_thorough.cfg')] + [
    dict(module='MC_Swu', cfg=f'MC_Swu_{d}.cfg', expect_violation='Agree') for d in ('cmov', 'sgn')]
CHECKS = {
    'C01': dict(cmd='hash', spec='T_Keccak'),
    'C02': dict(cmd='hash', spec='T_Keccak'),
    'C03': dict(cmd='hash', spec='T_Keccak'),
    'C04': dict(cmd='hash', spec='T_Sha', mc=SHA_MC, gen=dict(module='HashStream', cfg='G_HashStream64.cfg')),
    'C05': dict(cmd='hash', spec='T_Sha', mc=SHA_MC, gen=dict(module='HashStream', cfg='G_HashStream128.cfg')),
    'C06': dict(cmd='rlp', spec='T_Rlp', mc=[dict(module='MC_Rlp')]),
    'C07': dict(cmd='prim', spec='T_Select', mc=[dict(module='MC_Select')]),
    'C08': dict(cmd='mpt', spec='T_Mpt', mc=mptmc(['start0', 'link'], ['lastlink', 'single', 'extpath', 'extlen', 'leafpath', 'value']),
                gen=dict(module='G_Mpt', cfg_quick='G_Mpt08.cfg', cfg_thorough='G_Mpt08_thorough.cfg')),
    'C09': dict(cmd='mpt', spec='T_Mpt', mc=mptmc([], [])),
    'C10': dict(cmd='mpt', spec='T_Mpt', mc=mptmc(['zeroext', 'extaway'], ['zerobranch', 'zeroleaf', 'leafaway', 'childempty', 'lastlink', 'start0']),
                gen=dict(module='G_Mpt', cfg_quick='G_Mpt10.cfg', cfg_thorough='G_Mpt10_thorough.cfg')),
    'C11': dict(cmd='mpt', spec='T_Mpt', mc=mptmc(['start0'], ['link', 'single', 'extpath', 'extlen']),
                gen=dict(module='G_Mpt', cfg_quick='G_Mpt11.cfg', cfg_thorough='G_Mpt11_thorough.cfg')),
    'C12': dict(cmd='mpt', spec='T_Eth', mc=mptmc(['link'], ['lastlink', 'value', 'start0']),
                gen=dict(module='G_Eth', cfg_quick='G_Eth.cfg', cfg_thorough='G_Eth_thorough.cfg')),
    'C13': dict(cmd='prim', spec='T_Select', mc=[dict(module='MC_TxIndex')]),
    'C14': dict(cmd='alg', spec='T_Alg', mc=MERKLE_MC),
    'C15': dict(cmd='alg', spec='T_Alg', mc=MERKLE_MC),
    'C16': dict(cmd='alg', spec='T_Alg', mc=[dict(module='MimcStream', cfg='MC_MimcStream.cfg'),
                dict(module='MimcStream', cfg='MC_MimcStream_keep.cfg', expect_violation='Digest')],
                gen=dict(module='MimcStream', cfg_quick='G_MimcStream_quick.cfg', cfg_thorough='G_MimcStream_thorough.cfg')),
    'C17': dict(cmd='prim', spec='T_Bits'),
    'C18': dict(cmd='prim', spec='T_Bits'),
    'C19': dict(cmd='prim', spec='T_Bits'),
    'C20': dict(cmd='prim', spec='T_Bits'),
    'C21': dict(cmd='host', spec='T_Host', mc=[dict(module='MC_Query'), dict(module='MC_Query', cfg='MC_Query_short.cfg', expect_violation='Injective')]),
    'C22': dict(cmd='host', spec='T_Host'),
    'C23': dict(cmd='host', spec='T_Tx', mc=[dict(module='MC_Ecdsa', cfg_quick='MC_Ecdsa.cfg', cfg_thorough='MC_Ecdsa_thorough.cfg'),
                dict(module='MC_Ecdsa', cfg='MC_Ecdsa_noneg.cfg', expect_violation='Signer')],
                gen=dict(module='G_Tx', cfg_quick='G_Tx_tx.cfg', cfg_thorough='G_Tx_tx_thorough.cfg')),
    'C24': dict(cmd='host', spec='T_Tx', mc=[dict(module='MC_Trie', cfg_quick='MC_Trie.cfg', cfg_thorough='MC_Trie_thorough.cfg')],
                gen=dict(module='G_Tx', cfg_quick='G_Tx_block.cfg', cfg_thorough='G_Tx_block_thorough.cfg')),
    'C25': dict(cmd='ed', spec='T_Ed', mc=EDMC + edmut('rfree', 'sfree')),
    'C26': dict(cmd='ed', spec='T_Ed', mc=EDMC + edmut('oddbit'), tags='vcurve',
                overlay={'circuits/gadgets/ed25519/zz_verif_export.go': 'driver/overlay/ed25519/zz_verif_export.go'}),
    'C27': dict(cmd='bls', spec='T_Bls', mc=BLSMC),
    'C28': dict(cmd='bls', spec='T_Bls', mc=BLSMC + blsmut('untwist')),
    'C29': dict(cmd='bls', spec='T_Bls', mc=BLSMC + blsmut('cof') + SWUMC),
    'C30': dict(cmd='host', spec='T_Host'),
    'C31': dict(cmd='host', spec='T_Host'),
    'C32': dict(cmd='host', spec='T_Host', mc=[dict(module='MC_Hex')]),
    'C33': dict(cmd='rlp', spec='T_TxLeaf', mc=[dict(module='MC_Rlp')]),
    'C34': dict(cmd='store', spec='T_Store', mc=[dict(module='Store', cfg='MC_Store.cfg')] +
                [dict(module='Store', cfg='MC_Store_%s.cfg' % m, expect_violation=v) for m, v in (('tail', 'Exact'), ('append', 'Exact'), ('lenient', 'ReadBack'))],
                gen=dict(module='Store', cfg_quick='G_Store_quick.cfg', cfg_thorough='G_Store_thorough.cfg')),
    'C35': dict(cmd='host', spec='T_Host'),
    'C36': dict(cmd='host', spec='T_Host', mc=[dict(module='PoseidonStream', cfg='MC_PoseidonStream.cfg')] +
                [dict(module='PoseidonStream', cfg='MC_PoseidonStream_%s.cfg' % m, expect_violation='Digest') for m in ('drop', 'keep', 'alias')],
                gen=dict(module='PoseidonStream', cfg_quick='G_PoseidonStream_quick.cfg', cfg_thorough='G_PoseidonStream_thorough.cfg')),
    'C37': dict(cmd='net', spec='T_Net', mc=[dict(module='Beacon', cfg='MC_Beacon.cfg')] +
                [dict(module='Beacon', cfg='MC_Beacon_%s.cfg' % m, expect_violation=v) for m, v in (('status', 'Sound'), ('cut', 'Sound'), ('anychain', 'Sound'))],
                gen=dict(module='Beacon', cfg='G_Beacon.cfg')),
    'C38': dict(cmd='net', spec='T_Net', mc=[dict(module='Bucket', cfg_quick='MC_Bucket.cfg', cfg_thorough='MC_Bucket_thorough.cfg')] +
                [dict(module='Bucket', cfg='MC_Bucket_%s.cfg' % m, expect_violation=v) for m, v in
                 (('onepage', 'Complete'), ('again', 'Complete'), ('partial', 'Whole'), ('quiet', 'Told'), ('noretry', 'Hold'))],
                gen=dict(module='Bucket', cfg='G_Bucket.cfg')),
    'C39': dict(cmd='edlib', spec='T_EdLib', variants=['purego'], mc=[dict(module='Fe', cfg='MC_Fe.cfg')] +
                [dict(module='Fe', cfg='MC_Fe_%s.cfg' % m, expect_violation=v) for m, v in
                 (('once', 'Positive'), ('wrap', 'Right'), ('raw', 'Bound'), ('canon', 'Unique'), ('mul', 'Right'))]),
    'C40': dict(cmd='edlib', spec='T_EdLib', variants=['purego'],
                mc=[dict(module='Recode', cfg='MC_Recode_%s.cfg' % m) for m in ('naf', 'naf8', 'radix')] +
                [dict(module='Recode', cfg='MC_Recode_%s.cfg' % m, expect_violation=v) for m, v in
                 (('naf_carry', 'Stands'), ('naf_half', 'Small'), ('radix_top', 'Stands'))]),
}
NOT_APPLICABLE = {}
