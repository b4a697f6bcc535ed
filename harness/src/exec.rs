//! A deterministic single-threaded executor: tasks are only polled when they were woken, in an order chosen by a seed.
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Wake, Waker};

struct Flag(AtomicBool);
impl Wake for Flag {
	fn wake(self: Arc<Self>) {
		self.0.store(true, Ordering::SeqCst);
	}
	fn wake_by_ref(self: &Arc<Self>) {
		self.0.store(true, Ordering::SeqCst);
	}
}

struct Task {
	fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
	flag: Arc<Flag>,
	frozen: bool,
}

pub struct Exec {
	tasks: Vec<Task>,
	rng: u64,
	pub polls: u64,
}

/// A task and its result.
pub struct Job<T> {
	pub id: usize,
	out: Rc<RefCell<Option<T>>>,
}

impl<T> Job<T> {
	pub fn take(&self) -> Option<T> {
		self.out.borrow_mut().take()
	}
	pub fn ready(&self) -> bool {
		self.out.borrow().is_some()
	}
}

impl Exec {
	pub fn new(seed: u64) -> Self {
		Self { tasks: Vec::new(), rng: seed ^ 0x9E37_79B9_7F4A_7C15, polls: 0 }
	}

	pub fn rand(&mut self) -> u64 {
		self.rng = self.rng.wrapping_add(0x9E37_79B9_7F4A_7C15);
		let mut z = self.rng;
		z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
		z ^ (z >> 31)
	}

	pub fn spawn<T: 'static>(&mut self, fut: impl Future<Output = T> + 'static) -> Job<T> {
		let out = Rc::new(RefCell::new(None));
		let out2 = out.clone();
		let fut = Box::pin(async move {
			let r = fut.await;
			*out2.borrow_mut() = Some(r);
		});
		let task = Task { fut: Some(fut), flag: Arc::new(Flag(AtomicBool::new(true))), frozen: false };
		// Reuse finished slots that nobody refers to any more is not needed: cases are small.
		self.tasks.push(task);
		Job { id: self.tasks.len() - 1, out }
	}

	pub fn cancel(&mut self, id: usize) {
		self.tasks[id].fut = None;
	}

	/// Don't poll the task any more, even if it is woken.
	pub fn freeze(&mut self, id: usize, frozen: bool) {
		self.tasks[id].frozen = frozen;
	}

	fn ready(&self) -> Vec<usize> {
		let r = |t: &Task| t.fut.is_some() && !t.frozen && t.flag.0.load(Ordering::SeqCst);
		self.tasks.iter().enumerate().filter(|(_, t)| r(t)).map(|(i, _)| i).collect()
	}

	/// Poll one ready task. False if there is none.
	pub fn step(&mut self) -> bool {
		let ready = self.ready();
		if ready.is_empty() {
			return false;
		}
		let pick = ready[(self.rand() % ready.len() as u64) as usize];
		self.poll(pick);
		true
	}

	/// Number of tasks that were ever started. The next one gets this ID.
	pub fn len(&self) -> usize {
		self.tasks.len()
	}

	/// Poll this task now, whether it was woken or not. True if it is done.
	pub fn poll_now(&mut self, id: usize) -> bool {
		self.poll(id);
		self.tasks[id].fut.is_none()
	}

	fn poll(&mut self, pick: usize) {
		self.polls += 1;
		let t = &mut self.tasks[pick];
		t.flag.0.store(false, Ordering::SeqCst);
		let waker = Waker::from(t.flag.clone());
		let mut cx = Context::from_waker(&waker);
		// The future is taken out, so that its destructor runs outside of the executor's data.
		let mut fut = t.fut.take().unwrap();
		if fut.as_mut().poll(&mut cx).is_pending() {
			self.tasks[pick].fut = Some(fut);
		}
	}

	/// Run until nothing is ready. False if that does not happen.
	#[must_use]
	pub fn run(&mut self) -> bool {
		for _ in 0..20_000 {
			if !self.step() {
				return true;
			}
		}
		false
	}
}
