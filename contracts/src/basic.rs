//! Runs BASIC programs through the real compiler and virtual machine.

use async_trait::async_trait;
use endbasic_core::{
    ArgSep, ArgSepSyntax, CallResult, Callable, CallableMetadata, CallableMetadataBuilder,
    ConstantDatum, ExprType, RepeatedSyntax, RepeatedTypeSyntax, Scope, VarArgTag,
};
use endbasic_std::console::Console;
use endbasic_std::testutils::MockConsole;
use endbasic_std::{Error, Machine, MachineBuilder, Signal, Yielder};
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

/// Command that records the values of its arguments.
pub struct Probe {
    metadata: Rc<CallableMetadata>,
    seen: Rc<RefCell<Vec<ConstantDatum>>>,
}

impl Probe {
    pub fn new(seen: Rc<RefCell<Vec<ConstantDatum>>>) -> Rc<Self> {
        Rc::from(Self {
            metadata: CallableMetadataBuilder::new("PROBE")
                .with_syntax(&[(
                    &[],
                    Some(&RepeatedSyntax {
                        name: Cow::Borrowed("arg"),
                        type_syn: RepeatedTypeSyntax::AnyValue,
                        sep: ArgSepSyntax::Exactly(ArgSep::Long),
                        require_one: false,
                        allow_missing: false,
                    }),
                )])
                .with_category("Probes")
                .with_description("Records values.")
                .build(),
            seen,
        })
    }
}

#[async_trait(?Send)]
impl Callable for Probe {
    fn metadata(&self) -> Rc<CallableMetadata> {
        self.metadata.clone()
    }

    fn exec(&self, scope: Scope<'_>) -> CallResult<()> {
        let mut reg = 0;
        let mut seen = self.seen.borrow_mut();
        while usize::from(reg) < scope.nargs() {
            match scope.get_type(reg) {
                VarArgTag::Immediate(_, etype) => {
                    reg += 1;
                    seen.push(match etype {
                        ExprType::Boolean => scope.get_boolean(reg).into(),
                        ExprType::Double => scope.get_double(reg).into(),
                        ExprType::Integer => scope.get_integer(reg).into(),
                        ExprType::Text => scope.get_string(reg).into(),
                    });
                }
                _ => panic!("Probe only takes values"),
            }
            reg += 1;
        }
        Ok(())
    }
}

/// Yielder that asks for a break after a number of yields.
struct BreakAfter {
    left: Rc<RefCell<usize>>,
    tx: async_channel::Sender<Signal>,
}

#[async_trait(?Send)]
impl Yielder for BreakAfter {
    async fn yield_now(&mut self) {
        let mut left = self.left.borrow_mut();
        if *left == 0 {
            self.tx.try_send(Signal::Break).expect("Channel is unbounded");
        } else {
            *left -= 1;
        }
    }
}

/// Result of running a program.
#[derive(Debug)]
pub struct Outcome {
    /// Values given to `PROBE`.
    pub seen: Vec<ConstantDatum>,
    /// Position and message of the error that terminated the program, if any.
    pub error: Option<String>,
    /// True if the program did not compile.
    pub rejected: bool,
    /// Whether a break terminated the program.
    pub broken: bool,
    /// Exit code given to `END`.
    pub exit: Option<i32>,
}

impl Outcome {
    pub fn ints(&self) -> Vec<i32> {
        self.seen
            .iter()
            .map(|d| match d {
                ConstantDatum::Integer(i) => *i,
                d => panic!("Expected an integer but got {:?}", d),
            })
            .collect()
    }

    pub fn message(&self) -> &str {
        self.error.as_deref().unwrap_or("")
    }
}

/// A machine with the standard library and `PROBE`.
pub struct Session<C = MockConsole> {
    pub machine: Machine,
    pub seen: Rc<RefCell<Vec<ConstantDatum>>>,
    pub console: Rc<RefCell<C>>,
    left: Rc<RefCell<usize>>,
}

impl Session {
    /// Creates a session that receives a break after `yields` yields.
    pub fn new(yields: usize) -> Self {
        Session::with(MockConsole::default(), yields, |b| b.build())
    }
}

impl<C: Console + 'static> Session<C> {
    /// Creates a session on a specific console that receives a break after `yields` yields.
    pub fn with(console: C, yields: usize, build: impl FnOnce(MachineBuilder) -> Machine) -> Self {
        let seen = Rc::from(RefCell::from(vec![]));
        let console = Rc::from(RefCell::from(console));
        let chan = async_channel::unbounded();
        let left = Rc::from(RefCell::from(yields));
        let yielder = Rc::from(RefCell::from(BreakAfter { left: left.clone(), tx: chan.0.clone() }));
        let mut builder = MachineBuilder::default()
            .with_console(console.clone())
            .with_signals_chan(chan)
            .with_yielder(yielder);
        builder.add_callable(Probe::new(seen.clone()));
        Self { machine: build(builder), seen, console, left }
    }

    /// Makes the break come after `yields` yields from now.
    pub fn interrupt_after(&mut self, yields: usize) {
        *self.left.borrow_mut() = yields;
    }

    pub fn run(&mut self, program: &str) -> Outcome {
        let mut out =
            Outcome { seen: vec![], error: None, rejected: false, broken: false, exit: None };
        match self.machine.compile(&mut program.as_bytes()) {
            Ok(()) => match futures_lite::future::block_on(self.machine.exec()) {
                Ok(exit) => out.exit = exit,
                Err(Error::Break) => out.broken = true,
                Err(e) => out.error = Some(e.to_string()),
            },
            Err(e) => {
                out.rejected = true;
                out.error = Some(e.to_string());
            }
        }
        out.seen = std::mem::take(&mut *self.seen.borrow_mut());
        out
    }
}

/// Runs `program`, breaking it if it takes too long.
pub fn run(program: &str) -> Outcome {
    Session::new(100_000).run(program)
}

/// Formats an integer so that it can be embedded in a program without changing its value.
pub fn int(i: i32) -> String {
    if i == i32::MIN {
        "(-2147483647 - 1)".to_owned()
    } else if i < 0 {
        format!("({})", i)
    } else {
        i.to_string()
    }
}

/// Formats a finite double so that it can be embedded in a program without changing its value.
pub fn double(d: f64) -> String {
    let mut s = format!("{}", d.abs());
    if !s.contains('.') {
        s += ".0";
    }
    if d.is_sign_negative() {
        format!("(-{})", s)
    } else {
        s
    }
}
