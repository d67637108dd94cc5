"""
Virtual-time asyncio event loop with an in-memory datagram network.

SimLoop is a real asyncio selector loop (real tasks, futures, timers and wait_for) whose selector
never blocks: it advances a virtual clock to the next timer or network event. As in the real loop,
I/O that is ready is processed before timers that are due. create_datagram_endpoint is answered by
SimNet. Exceptions that reach the loop's exception handler (protocol callbacks, handles, tasks
nobody awaited) are recorded in loop.errors.
"""
import asyncio
import gc
import heapq
import itertools
import selectors


class SimDeadlock(RuntimeError):
    """Nothing is scheduled any more, but the main coroutine is not done"""


class SimLivelock(RuntimeError):
    """The loop iterates without virtual time advancing"""


class SimSelector(selectors.SelectSelector):
    """Never blocks, advances virtual time"""

    loop = None

    def select(self, timeout=None):
        self.loop._sim_step(timeout)
        return []


class SimTransport(asyncio.DatagramTransport):
    """One datagram endpoint of the code under test"""

    _ids = itertools.count(1)

    def __init__(self, net, loop, protocol, local, remote):
        super().__init__()
        self.net = net
        self.loop = loop
        self.protocol = protocol
        self.local = local
        self.remote = remote
        self.closed = False
        self.lost = False
        self.sent = []
        self.id = len(net.transports) + 1

    def sendto(self, data, addr=None):
        if not isinstance(data, (bytes, bytearray, memoryview)):
            raise TypeError("data argument must be a bytes-like object, not %r" % type(data).__name__)
        if not data:
            return
        if self.closed:
            self.net.sent_after_close += 1
            return
        if self.remote is not None:
            if addr is not None and tuple(addr[:2]) != tuple(self.remote[:2]):
                raise ValueError("Invalid address: must be None or %s" % (self.remote,))
            dest = self.remote
        else:
            if addr is None:
                raise ValueError("unbound send without an address")
            dest = addr
        self.net._sent(self, bytes(data), dest)

    def close(self):
        if self.closed:
            return
        self.closed = True
        self.loop.call_soon(self._lost)

    def abort(self):
        self.close()

    def is_closing(self):
        return self.closed

    def get_extra_info(self, name, default=None):
        if name == "sockname":
            return self.local or ("fd00::c", 50000 + self.id, 0, 0)
        if name == "peername":
            return self.remote or default
        return default

    def _lost(self):
        if not self.lost:
            self.lost = True
            self.protocol.connection_lost(None)

    def deliver(self, data, source):
        """A datagram arrives for this endpoint (runs as a loop callback, like the real read-ready handler)"""
        if self.closed:
            return
        self.protocol.datagram_received(data, source)


    def deliver_raw(self, data, source, loop):
        """Like deliver, but report what the protocol raises the way the real loop would"""
        try:
            self.deliver(data, source)
        except (SystemExit, KeyboardInterrupt):
            raise
        except Exception as error:  # pylint: disable=broad-except
            loop.call_exception_handler({"message": "Fatal error: protocol.datagram_received() call failed.", "exception": error})


class SimNet:
    """In-memory network. on_send(transport, data, dest) is called for everything the code under test sends."""

    def __init__(self, loop):
        self.loop = loop
        self.transports = []
        self.log = []  # (time, transport id, dest, data)
        self.on_send = None
        self.sent_after_close = 0
        self.endpoint_delay = 0.0
        self.fail_connect = None

    def _sent(self, transport, data, dest):
        t = self.loop.time()
        self.log.append((t, transport.id, dest, data))
        transport.sent.append((t, dest, data))
        if self.on_send:
            self.on_send(transport, data, dest)

    def listeners(self, port=None):
        return [t for t in self.transports if t.remote is None and not t.closed and (port is None or t.local[1] == port)]

    def connected(self, host=None):
        return [t for t in self.transports if t.remote is not None and not t.closed and (host is None or t.remote[0] == host)]

    def inject(self, delay, transport, data, source=None):
        """Deliver data to the given endpoint after delay seconds"""
        source = source or transport.remote
        self.loop.sim_at(self.loop.time() + delay, transport.deliver, bytes(data), source)


class SimLoop(asyncio.SelectorEventLoop):
    """Event loop on virtual time"""

    def __init__(self):
        self._vt = 1000.0
        self._sim_heap = []
        self._sim_seq = itertools.count()
        self._stuck = 0
        self._stuck_limit = 200000
        selector = SimSelector()
        selector.loop = self
        super().__init__(selector)
        self._clock_resolution = 1e-6
        self.net = SimNet(self)
        self.errors = []
        self.set_exception_handler(self._on_error)

    def _on_error(self, _loop, context):
        self.errors.append(context)

    def time(self):
        return self._vt

    def sim_at(self, when, func, *args):
        """Schedule an environment event (I/O) at a virtual time"""
        heapq.heappush(self._sim_heap, (when, next(self._sim_seq), func, args))

    def _sim_step(self, timeout):
        nxt = self._sim_heap[0][0] if self._sim_heap else None
        if timeout is None:
            if nxt is None:
                raise SimDeadlock("nothing left to happen, but the scenario has not finished")
            target = nxt
        elif timeout <= 0:
            target = self._vt
        else:
            target = self._vt + timeout
            if nxt is not None and nxt < target:
                target = nxt
        if target > self._vt:
            self._vt = target
            self._stuck = 0
        else:
            self._stuck += 1
            if self._stuck > self._stuck_limit:
                raise SimLivelock("the loop keeps running without time advancing")
        while self._sim_heap and self._sim_heap[0][0] <= self._vt:
            _when, _seq, func, args = heapq.heappop(self._sim_heap)
            self.call_soon(func, *args)

    async def create_datagram_endpoint(self, protocol_factory, local_addr=None, remote_addr=None, **kwargs):
        if self.net.fail_connect:
            raise self.net.fail_connect(remote_addr)
        protocol = protocol_factory()
        transport = SimTransport(self.net, self, protocol, local_addr, remote_addr)
        self.net.transports.append(transport)
        self.net.log.append((self.time(), transport.id, "open", (local_addr, remote_addr)))
        waiter = self.create_future()
        self.call_soon(protocol.connection_made, transport)
        self.call_soon(lambda: None if waiter.done() else waiter.set_result(None))
        await waiter
        return transport, protocol

    async def getaddrinfo(self, host, port, **kwargs):
        return [(10, 2, 17, "", (host, port, 0, 0))]

    def run_in_executor(self, executor, func, *args):
        """Run synchronously, deterministically"""
        future = self.create_future()
        try:
            future.set_result(func(*args))
        except Exception as error:  # pylint: disable=broad-except
            future.set_exception(error)
        return future


def run(main, setup=None, drain=0.0):
    """
    Run the coroutine function main(loop, net) on a fresh SimLoop and return (result, loop).
    Whatever still runs afterwards is given `drain` virtual seconds and is then cancelled.
    """
    loop = SimLoop()
    asyncio.set_event_loop(loop)
    try:
        if setup:
            setup(loop)
        result = loop.run_until_complete(main(loop, loop.net))
        if drain:
            loop.run_until_complete(asyncio.sleep(drain))
        gc.collect()
        return result, loop
    finally:
        loop.set_exception_handler(lambda _loop, _context: None)  # what teardown provokes is not judged
        try:
            pending = [t for t in asyncio.all_tasks(loop) if not t.done()]
            for task in pending:
                task.cancel()
            if pending:
                loop.run_until_complete(asyncio.gather(*pending, return_exceptions=True))
        except (SimDeadlock, SimLivelock):
            pass
        finally:
            asyncio.set_event_loop(None)
            loop.close()


def settle_errors(loop):
    """Loop errors including those of tasks and futures that were never awaited (run() has collected garbage)"""
    return loop.errors


def error_text(context):
    exc = context.get("exception")
    if exc is not None:
        import core

        return "%s: %s" % (context.get("message"), core.describe(exc))
    return str(context.get("message"))
