import java.util.ArrayList;
import java.util.HashMap;
import java.util.concurrent.Semaphore;
import java.util.concurrent.locks.ReentrantLock;
import org.python.core.*;

/**
 * A controlled scheduler for Python threads under Jython: one thread runs at a time and
 * control passes to another only at scheduling points: traced source lines and lock
 * operations.  The deviations say which thread goes on at which point; everywhere else the
 * running thread goes on.
 */
public class Sched {

	public static class Abandon extends ThreadDeath {
	}

	public static class Task {
		public final int index;
		final Semaphore sem = new Semaphore(0);
		volatile boolean done;
		volatile Lock waiting;

		Task(int i) {
			index = i;
		}
	}

	static volatile Sched active;
	static final ThreadLocal<Task> me = new ThreadLocal<Task>();

	final Task[] tasks;
	final HashMap<Integer, Integer> deviations = new HashMap<Integer, Integer>();
	final String[] files;
	final int horizon;
	public final ArrayList<int[]> points = new ArrayList<int[]>();
	volatile boolean dying;
	public volatile String failure;
	final Semaphore finished = new Semaphore(0);
	final HashMap<String, Boolean> traced = new HashMap<String, Boolean>();
	final Tracer tracer = new Tracer();
	public boolean lines = true;

	public Sched(int n, String[] files, int horizon) {
		tasks = new Task[n];
		for (int i = 0; i < n; i++)
			tasks[i] = new Task(i);
		this.files = files;
		this.horizon = horizon;
	}

	public void deviate(int point, int task) {
		deviations.put(point, task);
	}

	boolean enabled(Task t) {
		return !t.done && (t.waiting == null || t.waiting.owner == null);
	}

	/** element 0: the running task, 1: 1 if it cannot go on, the rest: the other enabled tasks */
	int[] record(Task self, boolean forced) {
		int n = 0;
		for (Task t : tasks)
			if (t != self && enabled(t))
				n++;
		int[] p = new int[n + 2];
		p[0] = self.index;
		p[1] = forced ? 1 : 0;
		n = 2;
		for (Task t : tasks)
			if (t != self && enabled(t))
				p[n++] = t.index;
		points.add(p);
		return p;
	}

	static boolean has(int[] p, int to) {
		for (int i = 2; i < p.length; i++)
			if (p[i] == to)
				return true;
		return false;
	}

	void point() {
		Task self = me.get();
		if (self == null || dying || self.done)
			return;
		int n = points.size();
		int[] p = record(self, false);
		if (n > horizon)
			giveUp("no end after " + horizon + " scheduling points");
		Integer to = deviations.get(n);
		if (to != null) {
			if (!has(p, to))
				giveUp("diverged: thread " + to + " is not enabled at point " + n);
			pass(self, tasks[to]);
		}
	}

	void forced(Task self) {
		if (dying)
			throw new Abandon();
		int n = points.size();
		int[] p = record(self, true);
		if (p.length == 2) {
			boolean all = true;
			for (Task t : tasks)
				all &= t.done;
			if (all) {
				finished.release();
				return;
			}
			giveUp("deadlock");
		}
		Integer to = deviations.get(n);
		if (to == null)
			to = p[2];
		if (!has(p, to))
			giveUp("diverged: thread " + to + " is not enabled at point " + n);
		if (self.done)
			tasks[to].sem.release();
		else
			pass(self, tasks[to]);
	}

	void pass(Task self, Task to) {
		to.sem.release();
		self.sem.acquireUninterruptibly();
		if (dying)
			throw new Abandon();
	}

	void giveUp(String why) {
		if (failure == null)
			failure = why;
		dying = true;
		for (Task t : tasks)
			t.sem.release(10);
		finished.release();
		throw new Abandon();
	}

	class Tracer extends TraceFunction {
		public TraceFunction traceCall(PyFrame f) {
			String name = f.f_code.co_filename;
			Boolean b = traced.get(name);
			if (b == null) {
				b = false;
				for (String x : files)
					b |= name.contains(x);
				traced.put(name, b);
			}
			return b ? this : null;
		}

		public TraceFunction traceReturn(PyFrame f, PyObject r) {
			return this;
		}

		public TraceFunction traceLine(PyFrame f, int line) {
			point();
			return this;
		}

		public TraceFunction traceException(PyFrame f, PyException e) {
			return this;
		}
	}

	/** body of the thread that runs a task */
	void work(Task t, PyObject body, PyObject[] result) {
		me.set(t);
		t.sem.acquireUninterruptibly();
		if (!dying) {
			ThreadState ts = Py.getThreadState();
			if (lines)
				ts.tracefunc = tracer;
			try {
				// body catches everything a Python program can catch
				result[t.index] = body.__call__();
			} catch (Abandon e) {
			} catch (Throwable e) {
				result[t.index] = Py.newString("escaped: " + e);
			} finally {
				ts.tracefunc = null;
			}
			t.done = true;
			try {
				if (!dying)
					forced(t);
			} catch (Abandon e) {
			}
		}
	}

	/** a list, because Jython takes a single PyObject[] parameter for *args; runs the bodies; the results are in the order of the bodies, null if given up */
	public PyObject[] run(java.util.List<PyObject> bodies) throws InterruptedException {
		final PyObject[] result = new PyObject[bodies.size()];
		Thread[] threads = new Thread[bodies.size()];
		final PySystemState sys = Py.getSystemState();
		active = this;
		for (int i = 0; i < bodies.size(); i++) {
			final Task t = tasks[i];
			final PyObject body = bodies.get(i);
			threads[i] = new Thread(null, new Runnable() {
				public void run() {
					try {
						Py.setSystemState(sys);
						work(t, body, result);
					} catch (Throwable e) {
						e.printStackTrace();
						t.done = true;
						failure = "scheduler: " + e;
						dying = true;
						for (Task x : tasks)
							x.sem.release(10);
						finished.release();
					}
				}
			}, "task" + i, 4 << 20);
			threads[i].setDaemon(true);
			threads[i].start();
		}
		Integer first = deviations.get(-1);
		tasks[first == null ? 0 : first].sem.release();
		finished.acquire();
		for (Thread t : threads)
			t.join();
		active = null;
		return result;
	}

	/** stands in for threading.Lock and threading.RLock */
	public static class Lock {
		final boolean reentrant;
		final ReentrantLock real = new ReentrantLock();
		volatile Task owner;
		int count;

		public Lock(boolean reentrant) {
			this.reentrant = reentrant;
		}

		public boolean acquire() {
			return acquire(true);
		}

		public boolean acquire(boolean blocking) {
			Sched s = active;
			Task self = me.get();
			if (s == null || self == null) {
				if (blocking) {
					real.lock();
					return true;
				}
				return real.tryLock();
			}
			s.point();
			while (owner != null && !(reentrant && owner == self)) {
				if (!blocking)
					return false;
				self.waiting = this;
				try {
					s.forced(self);
				} finally {
					self.waiting = null;
				}
			}
			owner = self;
			count++;
			return true;
		}

		public void release() {
			Sched s = active;
			Task self = me.get();
			if (s == null || self == null) {
				real.unlock();
				return;
			}
			if (owner != self) {
				if (s.dying)
					return;
				throw Py.RuntimeError("release of a lock that is not held");
			}
			if (--count == 0) {
				owner = null;
				s.point();
			}
		}

		public Lock __enter__() {
			acquire();
			return this;
		}

		public boolean __exit__(PyObject a, PyObject b, PyObject c) {
			release();
			return false;
		}

		public boolean locked() {
			return owner != null || real.isLocked();
		}
	}
}
