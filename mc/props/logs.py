"""Reading back log files and comparing them with the chains."""
import os
import numpy as np
from ..lockstep import Violation, quiet, last_frames, close


def names(opt):
    return dict(chainfile=opt.get('chainfile', 'chainfile'), sschainfile=opt.get('sschainfile', 'sschainfile'),
                s2chainfile=opt.get('s2chainfile', 's2chainfile'), covchainfile=opt.get('covchainfile', 'covchainfile'))


def as_rows(x, ncol):
    return np.asarray(x, dtype=float)


def read(savedir, ext, opt):
    from pymcmcstat.chain import ChainProcessing as CP
    try:
        with quiet():
            return CP.read_in_savedir_files(savedir, extension=ext, **names(opt))
    except (Exception, SystemExit) as ex:
        raise Violation('reading the %s log files fails: %s' % (ext, last_frames(ex)))


def same_rows(what, got, want):
    ncol = want.shape[1]
    if len(want) == 0 and len(got) == 0:
        return
    if len(got) == 0 or np.size(got) % ncol:
        raise Violation('%s: %d values read back, %d rows of %d expected' % (what, np.size(got), len(want), ncol))
    got = as_rows(got, ncol)
    if got.shape != want.shape or not np.array_equal(got, want):
        if got.ndim != 2:
            raise Violation('%s read back with shape %s, expected %s' % (what, got.shape, want.shape))
        k = min(len(got), len(want))
        d = [i for i in range(k) if got.shape[1] != ncol or not np.array_equal(got[i], want[i])]
        raise Violation('%s read back: %d rows, expected %d; first different row %s' % (
            what, len(got), len(want), d[0] if d else k))


def intervals(savedir, ext):
    f = os.path.join(savedir, 'binlogfile.txt' if ext == 'h5' else 'txtlogfile.txt')
    out = []
    if not os.path.exists(f):
        return None
    for line in open(f):
        p = line.split('\t')
        try:
            out.append((int(p[-2]), int(p[-1])))
        except Exception:
            raise Violation('unreadable line in the index log: %r' % line)
    return out


def check_logs(savedir, ext, opt, chain, ss, s2, ref, custom=None, run_ends=()):
    """Complete log files of a finished history."""
    out = read(savedir, ext, opt)
    same_rows('%s chain' % ext, out['chain'], np.asarray(chain))
    same_rows('%s sum-of-squares chain' % ext, out['sschain'], np.asarray(ss))
    if s2 is not None:
        same_rows('%s error-variance chain' % ext, out['s2chain'], np.asarray(s2))
    elif len(out['s2chain']):
        raise Violation('error-variance chain logged without updating')
    iv = intervals(savedir, ext)
    if iv is None:
        raise Violation('no index log for %s' % ext)
    nxt = 0
    for a, b in iv:
        if a != nxt or b < a:
            raise Violation('index log intervals %s do not partition the rows' % (iv,))
        nxt = b + 1
    if nxt != len(chain):
        raise Violation('index log ends at row %d of %d' % (nxt - 1, len(chain)))
    npar = np.asarray(chain).shape[1]
    cov = out['covchain']
    if np.size(cov) != len(iv)*npar*npar:
        raise Violation('%s covariance log holds %d values, expected one %dx%d matrix for each of %d segments' % (
            ext, np.size(cov), npar, npar, len(iv)))
    cov = np.asarray(cov, dtype=float).reshape(len(iv), npar, npar)
    for k, (a, b) in enumerate(iv):
        cand = [ref.covlog[max(b, 1) - 1]]
        if b not in run_ends and b < len(ref.covlog):
            cand.append(ref.covlog[b])
        if not any(close(cov[k], c) for c in cand):
            raise Violation('%s covariance log of segment %d-%d: %s, proposal then %s' % (ext, a, b, cov[k], cand[-1]))
    for fname, rows in (custom or {}).items():
        from pymcmcstat.chain import ChainProcessing as CP
        p = os.path.join(savedir, '%s.%s' % (fname, ext))
        with quiet():
            got = CP.read_in_bin_file(p) if ext == 'h5' else CP.read_in_txt_file(p)
        same_rows('%s custom chain %s' % (ext, fname), got, np.asarray(rows))
    return iv
