//! The interface of `oxymcts` 0.1 with the search replaced by an arbitrary one: every simulation
//! starts with any legal move of the root followed by a playout and an evaluation, and the best move
//! is any of the moves tried.  (With one simulation this is what the real search does, its draws
//! left to the harness; with more it is every move the real search could name, whatever the tree.)
use std::fmt::Debug;
use std::marker::PhantomData;

extern "C-unwind" {
    fn vchoice(n: u64) -> u64;
    /// tells the harness which move the search names
    fn vmoved(m: *const u8, size: u64);
}
fn choice(n: usize) -> usize {
    unsafe { vchoice(n as u64) as usize }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Num;
pub type Nat = u32;
pub fn uct_value(_parent_visits: Nat, _sum_rewards: f64, _node_visit: Nat, _c: f64) -> Num {
    Num
}

pub trait GameTrait: Clone {
    type Player: Debug + Clone + Eq;
    type Move: Debug + Clone;
    fn legals_moves(&self) -> Vec<Self::Move>;
    fn player_turn(&self) -> Self::Player;
    fn hash(&self) -> u64;
    fn is_final(&self) -> bool;
    fn do_move(&mut self, m: &Self::Move);
    fn get_winner(&self) -> Self::Player;
}
pub trait Evaluator<State: GameTrait, Reward: Clone, AdditionalInfo: Clone + Default> {
    type Args;
    type EvalResult: Clone;
    fn eval_child(
        child: &LazyMctsNode<State, Reward, AdditionalInfo>,
        turn: &State::Player,
        parent_visits: Nat,
        args: &Self::Args,
    ) -> Num;
    fn evaluate_leaf(child: State, turn: &State::Player) -> Self::EvalResult;
}
pub trait Playout<State> {
    type Args;
    fn playout(state: State, args: Self::Args) -> State;
}
pub struct LazyMctsNode<State: GameTrait, Reward, A> {
    pub sum_rewards: Reward,
    pub n_visits: Nat,
    pub unvisited_moves: Vec<State::Move>,
    pub hash: u64,
    pub state: Vec<State::Move>,
    pub additional_info: A,
}
pub struct DefaultBackProp;
pub struct DefaultLazyTreePolicy<State, EV, A, Reward>(PhantomData<(State, EV, A, Reward)>);

pub struct LazyMcts<'a, State: GameTrait, TP, PP, BP, EV, A, R> {
    root_state: &'a State,
    unvisited: Vec<State::Move>,
    tried: Vec<State::Move>,
    p: PhantomData<(TP, PP, BP, EV, A, R)>,
}
impl<'a, State, TP, PP, BP, EV, A, R> LazyMcts<'a, State, TP, PP, BP, EV, A, R>
where
    State: GameTrait,
    PP: Playout<State>,
    EV: Evaluator<State, R, A, EvalResult = R>,
    A: Clone + Default,
    R: Clone,
{
    pub fn new(root_state: &'a State) -> Self {
        Self::with_capacity(root_state, 0)
    }
    pub fn with_capacity(root_state: &'a State, _capacity: usize) -> Self {
        LazyMcts { root_state, unvisited: root_state.legals_moves(), tried: Vec::new(), p: PhantomData }
    }
    pub fn execute(&mut self, args: &EV::Args, playout_args: PP::Args) {
        let mut s = self.root_state.clone();
        let turn = s.player_turn();
        let (m, fresh) = if self.unvisited.is_empty() {
            (None, None)
        } else {
            let m = self.unvisited.swap_remove(choice(self.unvisited.len()));
            s.do_move(&m);
            (Some(m), Some((s.legals_moves(), s.hash())))
        };
        let end = PP::playout(s, playout_args);
        let r = EV::evaluate_leaf(end, &turn);
        if let (Some(m), Some((l, h))) = (m, fresh) {
            let node = LazyMctsNode { sum_rewards: r, n_visits: 1, unvisited_moves: l, hash: h, state: vec![m.clone()],
                additional_info: A::default() };
            EV::eval_child(&node, &turn, 1, args);
            self.tried.push(m);
        }
    }
    pub fn best_move(&self, _args: &EV::Args) -> State::Move {
        let m = self.tried[choice(self.tried.len())].clone();
        unsafe { vmoved(&m as *const State::Move as *const u8, std::mem::size_of::<State::Move>() as u64) };
        m
    }
}
