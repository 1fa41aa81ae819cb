//! Drives pica through its public library API: `pica::run` on a mutex,
//! `Pica::add_device` called directly under the lock, `PicaCommand`s sent by
//! several actors, and a custom ranging estimator.
use pica::{MacAddress, Pica, PicaCommand, PicaCommandError, PicaEvent};
use simtypes::*;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::sync::{broadcast, oneshot};

struct Estimator {
    none_percent: u64,
}

impl pica::RangingEstimator for Estimator {
    fn estimate(&self, left: &pica::Handle, right: &pica::Handle) -> Option<pica::RangingMeasurement> {
        estimate(self.none_percent, *left as u64, *right as u64).map(|(range, azimuth, elevation)| {
            pica::RangingMeasurement { range, azimuth, elevation }
        })
    }
}

async fn events(mut rx: broadcast::Receiver<PicaEvent>) {
    loop {
        match rx.recv().await {
            Ok(PicaEvent::Connected { handle, mac_address }) => {
                simkernel::record_event("connected", handle as u64, &mac_address.to_string())
            }
            Ok(PicaEvent::Disconnected { handle, mac_address }) => {
                simkernel::record_event("disconnected", handle as u64, &mac_address.to_string())
            }
            Err(broadcast::error::RecvError::Lagged(n)) => simkernel::record_event("lagged", n, ""),
            Err(broadcast::error::RecvError::Closed) => {
                simkernel::record_event("closed", 0, "");
                return;
            }
        }
    }
}

async fn actor(id: usize, steps: Vec<ApiStep>, tx: tokio::sync::mpsc::Sender<PicaCommand>) {
    let start = tokio::time::Instant::now();
    for (i, s) in steps.into_iter().enumerate() {
        tokio::time::sleep_until(start + Duration::from_micros(s.at)).await;
        let (rsp_tx, rsp_rx) = oneshot::channel();
        let (cmd, wait) = match &s.op {
            ApiOp::CreateAnchor { mac } => (PicaCommand::CreateAnchor(MacAddress::new(mac.clone()).unwrap(), rsp_tx), true),
            ApiOp::DestroyAnchor { mac } => (PicaCommand::DestroyAnchor(MacAddress::new(mac.clone()).unwrap(), rsp_tx), true),
            ApiOp::CreateAnchorDrop { mac } => (PicaCommand::CreateAnchor(MacAddress::new(mac.clone()).unwrap(), rsp_tx), false),
            ApiOp::DestroyAnchorDrop { mac } => (PicaCommand::DestroyAnchor(MacAddress::new(mac.clone()).unwrap(), rsp_tx), false),
            ApiOp::Disconnect { nth } => {
                let handle = simkernel::nth_handle(*nth);
                let rec = ApiRec {
                    actor: id,
                    step: i,
                    t_call: simkernel::now(),
                    t_ret: None,
                    result: handle.map_or("disconnect".into(), |h| format!("disconnect:{h}")),
                };
                simkernel::record_api(rec);
                let _ = tx.send(PicaCommand::Disconnect(handle.unwrap_or(u32::MAX as u64) as usize)).await;
                continue;
            }
            ApiOp::Nop => continue,
        };
        let mut rec = ApiRec { actor: id, step: i, t_call: simkernel::now(), t_ret: None, result: String::new() };
        if tx.send(cmd).await.is_err() {
            rec.result = "send-failed".into();
            simkernel::record_api(rec);
            continue;
        }
        if !wait {
            rec.result = "dropped".into();
            simkernel::record_api(rec);
            continue;
        }
        rec.result = match rsp_rx.await {
            Ok(Ok(h)) => format!("ok:{h}"),
            Ok(Err(PicaCommandError::DeviceAlreadyExists(_))) => "exists".into(),
            Ok(Err(PicaCommandError::DeviceNotFound(_))) => "notfound".into(),
            Err(_) => "closed".into(),
        };
        rec.t_ret = Some(simkernel::now());
        simkernel::record_api(rec);
    }
}

#[tokio::main]
async fn main() {
    let plan = simkernel::plan().clone();
    let dir = plan.pcapng.then(|| std::path::PathBuf::from("/simfs"));
    let pica = Pica::new(Box::new(Estimator { none_percent: plan.est_none_percent }), dir);
    let commands = pica.commands();
    let rx = pica.events();
    let pica = Arc::new(Mutex::new(pica));

    tokio::spawn(events(rx));
    for (i, a) in plan.api.into_iter().enumerate() {
        tokio::spawn(actor(i, a, commands.clone()));
    }
    let adder = pica.clone();
    tokio::spawn(async move {
        let listener = tokio::net::TcpListener::bind("127.0.0.1:7000").await.unwrap();
        loop {
            // /verif's own accept loop: never the component under test
            let Ok((socket, addr)) = listener.accept().await else {
                tokio::time::sleep(Duration::from_millis(10)).await;
                continue;
            };
            let (read_half, write_half) = socket.into_split();
            let stream = Box::pin(futures::stream::unfold(read_half, pica::packets::uci::read));
            let sink = Box::pin(futures::sink::unfold(write_half, pica::packets::uci::write));
            let handle = adder.lock().unwrap().add_device(stream, sink).unwrap();
            simkernel::record_handle(addr.port(), handle as u64);
        }
    });
    let _ = pica::run(&pica).await;
}
