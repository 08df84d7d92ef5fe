"""All contracts, the crates they are attached to, and what each property consists of."""
import json, os, re
from . import spec_bin, spec_core, spec_core2, spec_ssh, spec_srv, spec_sync

HERE = os.path.dirname(os.path.abspath(__file__))
CRATES = [dict(name='nora_ssh_core', tree=False), dict(name='nora_ssh', tree=True, file='nora_ssh/src/lib.rs'), dict(name='nora_sshd', tree=True, file='nora_sshd/src/main.rs'), dict(name='nora_scp', tree=True, file='nora_scp/src/main.rs')]
INST = {'Cipher': 'nora_ssh_core::cipher::ChaCha20Poly1305', 'SignKey': 'p256::NistP256'}
INST_ASSOC = {'Crypt': 'nora_ssh_core::cipher::ChaCha20Poly1305', 'Sign': 'p256::NistP256'}
MODS = (spec_core, spec_core2, spec_ssh, spec_srv, spec_sync, spec_bin)
CONTRACTS, SP = {}, []
NOINLINE = spec_srv.NOINLINE
for m in MODS:
    CONTRACTS.update(m.CONTRACTS)
    SP += m.SP
EXTRA = dict(files=['prelude.rs', 'ext.rs'], texts=[], types={})
for m in MODS:
    for k, v in getattr(m, 'EXTRA', {}).items():
        if k == 'types':
            EXTRA['types'].update(v)
        else:
            EXTRA.setdefault(k, []).extend(v)
try:
    BASELINE = json.load(open(os.path.join(HERE, 'baseline.json')))
except OSError:
    BASELINE = {}

CRYPTO = 'cryptographic primitives (SHA-2, ChaCha20, Poly1305, curve arithmetic, signatures, random source) are uninterpreted functions with assumed contracts; their security is not proved'
EXTRACT = 'the verified text is extracted from the current source on every run: macros are expanded by rustc, lifetimes, attributes and doc comments are dropped, std calls are redirected to contracted stand-ins, closures passed to Option/Result combinators are inlined (DESIGN.md, "what the extraction drops")'
USIZE = 'usize is 64 bits wide; machine arithmetic is checked for overflow, not treated as mathematical'
P = {}


def prop(i, level='proof', proof=True, lemmas=(), assumptions=(), native=True):
    P[i] = dict(level=level, proof=proof, lemmas=list(lemmas), assumptions=[EXTRACT, USIZE] + list(assumptions), native=native)


from .spec_core import S as _S                                                   # noqa: E402
_RT = ['rt_' + v[0] for v in _S] + ['rt_Key', 'rt_Sig', 'rt_SigBlob', 'rt_EcdhReply', 'rt_UaRequest', 'rt_Channel', 'rt_UserAuth', 'rt_Message']
_INV = ['inv_' + v[0] for v in _S]
prop('C01', lemmas=_RT)
prop('C02')
prop('C03')
prop('C04', lemmas=_INV)
prop('C05', lemmas=['lemma_sess_names', 'rt_Sess'])
prop('C06', lemmas=['lemma_comma', 'lemma_comma_at', 'lemma_names', 'lemma_unnames'])
prop('C07', lemmas=['lemma_num0', 'lemma_num_strip', 'lemma_mpint'])
prop('C18', lemmas=['lemma_sign_data_inj'])
prop('C08', assumptions=['random padding bytes come from the caller-supplied source; its quality is not specified'])
prop('C10', lemmas=['lemma_xor_inv', 'lemma_cipher_rt'], assumptions=[CRYPTO])
prop('C11', lemmas=['lemma_nonce_inj'], assumptions=[CRYPTO])
prop('C12', assumptions=[CRYPTO])
prop('C13', lemmas=['lemma_xhash'], assumptions=[CRYPTO])
STREAM = 'byte streams (AsyncRead/AsyncWrite) are assumed to obey their contract: read_exact fills the buffer with the next bytes of the stream or fails, write_all appends the bytes or fails; `.await` is treated as a call, so cancellation and executor schedules are outside the proof (C27)'
INST_A = 'type parameters bounded by Cipher and SignKey are instantiated with the only implementations the workspace uses (ChaCha20Poly1305, NistP256)'
prop('C09', assumptions=[STREAM])
prop('C15', lemmas=['lemma_rest', 'lemma_id_pos'], assumptions=[STREAM])
prop('C16', lemmas=['lemma_frames', 'lemma_transport_rt'], assumptions=[CRYPTO, STREAM, INST_A, 'fewer than 2^64-1 packets per direction'])
prop('C19', assumptions=['fewer than 2^32-1 channel slots exist (each needs memory of its own)'])
prop('C14', lemmas=['lemma_xhash', 'lemma_has', 'lemma_has0', 'lemma_dwf_kex', 'lemma_nl_consts', 'lemma_offer', 'lemma_reply', 'lemma_newkeys', 'lemma_key_len', 'lemma_framed8', 'lemma_pay_len', 'lemma_fst'], assumptions=[CRYPTO, STREAM, INST_A])
CELLS = 'RefCell and LocalMutex are erased to their content: that no other task borrows the same cell during the call is not proved here (bounded check of C20/C22/C23 exercises it)'
HANDLERS = 'the application (ServerHandlers) is an abstract implementation of the trait; its answers are unconstrained'
prop('C17', lemmas=['lemma_asked', 'lemma_probed', 'lemma_pstr_len', 'lemma_m_fits', 'lemma_r_fits', 'lemma_ua_fits', 'lemma_authing0', 'lemma_authing1', 'lemma_ua_success', 'lemma_ua_failure', 'lemma_ua_pkok', 'lemma_svc_accept', 'lemma_agreed', 'lemma_session'],
     assumptions=[CRYPTO, STREAM, INST_A, CELLS, HANDLERS, 'fewer than 2^64-1 packets per direction (assumed in the loop of authenticate_new_client)'])
prop('C20', lemmas=['lemma_ran0', 'lemma_ran1', 'lemma_ch_reply', 'lemma_fst'], assumptions=[CRYPTO, STREAM, INST_A, CELLS, HANDLERS, 'fewer than 2^64-1 packets per direction and 2^32-1 channel slots (assumed in the loop of receive)'])
SELECT = 'select! is read as: some ready branch runs to its end and the futures of the other branches have no effect (what dropping them halfway does is C27); a pushed future that owns everything it uses gives the same result whenever it runs'
prop('C21', lemmas=['lemma_relay0', 'lemma_relay1', 'lemma_relay_recv', 'lemma_relay_out', 'lemma_ch_out', 'lemma_fst'], assumptions=[CRYPTO, STREAM, INST_A, CELLS, HANDLERS, SELECT, 'Client::start takes self by value; the contract sees its final state through a mutable borrow', 'fewer than 2^64-16 packets per direction (assumed in the loop of start)'])
prop('C22', assumptions=[CRYPTO, STREAM, INST_A, CELLS, HANDLERS, SELECT, 'panics of RefCell (double borrow), of allocation, and of Server::start, which only schedules the functions under contract, are outside the obligations; the bounded search runs them'])
LOCK = 'RefCell, Cell and Waker are contracted stand-ins over an explicit state (which cells are borrowed, which wakers a cell holds, which were woken); that the borrow taken by poll ends right after drop returns is the language\'s drop order; waking only marks a task, it does not run it'
prop('C23', lemmas=['lemma_lock_step', 'lemma_lock'], assumptions=[LOCK, 'a task that polls again after it was woken registers again: what makes it poll is the executor (C27)'])
prop('C26', assumptions=[CRYPTO, 'that the message handed to authenticate is the session-bound authentication data is C17'])
FILES = 'standard output, files and their metadata are contracted stand-ins over an explicit state; a file has one content and one size while it is being sent'
ARGS = 'std::env::args_os gives the command line; run without -f or -t the program is outside its contract (it says todo!)'
prop('C25', lemmas=['lemma_scp_' + n for n in ('first', 'last', 'head', 'more', 'zero', 'cut0', 'cut', 'prefix', 'join', 'trans', 'e', 'j3')] + spec_bin.LTC, assumptions=[FILES, ARGS, 'decimal and octal formatting by println! (Display of u64, {:04o}) is not verified'])
prop('C24', lemmas=spec_bin.LT + spec_bin.LTC, assumptions=[FILES, ARGS, 'str::splitn, strip_suffix, parse::<usize> and from_utf8 are assumed to do what std documents'])
PROPS = P
SAFE = ('C03', 'C22')     # panic freedom: every precondition and safety obligation in the call closure counts

try:
    KNOWN = json.load(open(os.path.join(os.path.dirname(HERE), 'known_findings.json')))
except OSError:
    KNOWN = dict(known=[], fixed=[])


def known(prop, failure):
    for k in KNOWN['known']:
        if k['property'] == prop and failure.get('id') == k['id']:
            return k['what']
    return None
NOT_APPLICABLE = {
    'C27': 'cancellation at arbitrary await points and executor schedules are whole-history properties of the async runtime; a function contract in Verus sees an async body as one uninterrupted call, so no contract within reach states or decides it',
}
