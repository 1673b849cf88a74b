//! Stand-in for actix-broker: harnesses send the broadcast messages directly.
use actix::prelude::*;
pub trait BrokerSubscribe
where
    Self: Actor,
{
    fn subscribe_system_async<M: Message + 'static>(&self, _ctx: &mut Self::Context)
    where
        Self: Handler<M>,
    {
    }
}
impl<A: Actor> BrokerSubscribe for A {}
