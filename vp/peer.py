"""A second process running the code under test, driven over pipes.

Messages are length-prefixed pickles of plain data only."""
import os
import pickle
import struct
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))

from vp import harness      # noqa
PY = {'lxml': '/opt/venv/bin/python', 'etree': '/opt/venv-nolxml/bin/python'}


def put(f, obj):
    data = pickle.dumps(obj)
    f.write(struct.pack('>I', len(data)) + data)
    f.flush()


def get(f):
    head = f.read(4)
    if len(head) < 4:
        raise EOFError('the peer ended')
    return pickle.loads(f.read(struct.unpack('>I', head)[0]))


class Peer:
    def __init__(self, backend, hashseed='0'):
        env = dict(os.environ, VERIF_BACKEND=backend, PYTHONHASHSEED=hashseed)
        self.p = subprocess.Popen(
            [PY[backend], '-W', 'ignore', os.path.abspath(__file__)],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)

    def ask(self, *msg):
        put(self.p.stdin, msg)
        out = get(self.p.stdout)
        if out[0] == 'harness error':
            if len(out) > 2 and out[2]:
                raise harness.Violation('%s fails in another process' % (
                    msg[0],), out[1])
            raise RuntimeError(out[1])
        return out

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()
            self.p.wait()


def answer(op, *args):
    """@return: ('ok', plain data) or ('refused', exception name)"""
    from vp import sut
    from vp.sut import ElementTree
    if op == 'decide':          # policy bytes, request dict
        o = sut.load(args[0])
        return 'ok', [sut.decide(o, sut.request(m)) for m in args[1]]
    if op == 'unpickle':        # pickled request, policies' bytes
        r = pickle.loads(args[0])
        return 'ok', (sut.dump_request(r), [sut.decide(sut.load(d), r)
                                            for d in args[1]])
    if op == 'unpickle_response':
        return 'ok', sut.dump_response(pickle.loads(args[0]))
    try:
        if op == 'policy':
            return 'ok', sut.dump_policy(sut.load(args[0]))
        if op == 'policy_path':
            return 'ok', sut.dump_policy(sut.PDP.fromPolicySource(
                args[0], sut.ReaderFactory).policy)
        if op == 'select':      # document bytes, paths
            x = sut.EtreeXPathSelector(sut.parse_element(args[0]))
            return 'ok', [[str(t) for t in x.selectText(q)]
                          for q in args[1]]
        if op == 'pretty':      # element bytes
            return 'ok', sut.prettyPrint(sut.parse_element(args[0]))
        if op == 'request':     # bytes -> content, serialised again
            r = sut.request_from_xml(args[0])
            return 'ok', (sut.dump_request(r), ElementTree.tostring(
                sut.RequestElementTree.toXML(r)))
        if op == 'request_toxml':
            e = sut.RequestElementTree.toXML(sut.request(args[0]))
            return 'ok', (sut.dump_element(e), ElementTree.tostring(e))
        if op == 'decide_xml':  # policy bytes, request bytes
            o = sut.load(args[0])
            return 'ok', sut.decide(o, sut.request_from_xml(args[1]))
        if op == 'response_toxml':
            e = sut.ResponseElementTree.toXML(sut.response(args[0]))
            return 'ok', (sut.dump_element(e), ElementTree.tostring(e))
        if op == 'response':
            return 'ok', sut.dump_response(sut.ResponseElementTree.fromXML(
                sut.parse_element(args[0])))
        if op == 'pretty_request':
            return 'ok', sut.prettyPrint(sut.RequestElementTree.toXML(
                sut.request(args[0])))
    except Exception as e:
        return 'refused', type(e).__name__
    raise KeyError(op)


def main():
    sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
    sys.dont_write_bytecode = True
    out = os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    import ndg.xacml
    ndg.xacml.importElementTree()
    harness.quiet_logging()
    from vp import sut
    sut.register_all()
    if sut.BACKEND != os.environ['VERIF_BACKEND']:
        put(out, ('harness error', 'wrong XML library'))
        return
    while True:
        try:
            msg = get(sys.stdin.buffer)
        except EOFError:
            return
        try:
            put(out, answer(*msg))
        except BaseException:
            import traceback
            put(out, ('harness error', traceback.format_exc(),
                      harness._in_repo(sys.exc_info()[2])))


if __name__ == '__main__':
    main()
