//! Stand-in for rust-analyzer's `vfs-notify`: loads the configured files on its own thread.
//! It does not watch the file system (no change events are produced on its own).
use crossbeam_channel::{unbounded, Receiver, Sender};
use paths::{AbsPath, AbsPathBuf};
use std::fs;
use vfs::loader::{self, LoadingProgress};
use walkdir::WalkDir;

#[derive(Debug)]
pub struct NotifyHandle {
    sender: Option<Sender<Message>>,
    thread: Option<stdx::thread::JoinHandle>,
}
/// Joined, not detached: see `stdx::thread::Pool`.
impl Drop for NotifyHandle {
    fn drop(&mut self) {
        self.sender = None;
        if let Some(t) = self.thread.take() {
            t.join();
        }
    }
}
#[derive(Debug)]
enum Message {
    Config(loader::Config),
    Invalidate(AbsPathBuf),
}
impl loader::Handle for NotifyHandle {
    fn spawn(sender: loader::Sender) -> NotifyHandle {
        let (s, r) = unbounded::<Message>();
        let thread = stdx::thread::Builder::new(stdx::thread::ThreadIntent::Worker, "VfsLoader")
            .allow_leak(true)
            .spawn(move || run(sender, r))
            .expect("failed to spawn thread");
        NotifyHandle { sender: Some(s), thread: Some(thread) }
    }
    fn set_config(&mut self, config: loader::Config) {
        self.sender.as_ref().unwrap().send(Message::Config(config)).unwrap();
    }
    fn invalidate(&mut self, path: AbsPathBuf) {
        self.sender.as_ref().unwrap().send(Message::Invalidate(path)).unwrap();
    }
    fn load_sync(&mut self, path: &AbsPath) -> Option<Vec<u8>> {
        read(path)
    }
}
fn run(sender: loader::Sender, inbox: Receiver<Message>) {
    for msg in inbox {
        match msg {
            Message::Invalidate(path) => {
                let contents = read(&path);
                let files = vec![(path, contents)];
                let _ = sender.send(loader::Message::Changed { files });
            }
            Message::Config(config) => {
                let n_total = config.load.len();
                let v = config.version;
                let send = |n_done, dir| {
                    let _ =
                        sender.send(loader::Message::Progress { n_total, n_done, dir, config_version: v });
                };
                send(LoadingProgress::Started, None);
                for (i, entry) in config.load.into_iter().enumerate() {
                    let files = load_entry(entry);
                    let _ = sender.send(loader::Message::Loaded { files });
                    if i + 1 < n_total {
                        send(LoadingProgress::Progress(i + 1), None);
                    }
                }
                send(LoadingProgress::Finished, None);
            }
        }
    }
}
fn load_entry(entry: loader::Entry) -> Vec<(AbsPathBuf, Option<Vec<u8>>)> {
    match entry {
        loader::Entry::Files(files) => files
            .into_iter()
            .map(|file| {
                let contents = read(file.as_path());
                (file, contents)
            })
            .collect(),
        loader::Entry::Directories(dirs) => {
            let mut res = Vec::new();
            for root in &dirs.include {
                let walk = WalkDir::new(root).follow_links(true).sort_by_file_name().into_iter().filter_entry(|entry| {
                    if !entry.file_type().is_dir() {
                        return true;
                    }
                    let path = entry.path();
                    dirs.exclude.iter().all(|it| it != path)
                        && (*root == path || dirs.include.iter().all(|it| it != path))
                });
                for entry in walk.filter_map(Result::ok) {
                    if !entry.file_type().is_file() {
                        continue;
                    }
                    let Ok(path) = paths::Utf8PathBuf::from_path_buf(entry.into_path()) else { continue };
                    let Ok(abs) = AbsPathBuf::try_from(path) else { continue };
                    let ext = abs.extension().unwrap_or_default();
                    if dirs.extensions.iter().all(|it| it.as_str() != ext) {
                        continue;
                    }
                    let contents = read(abs.as_path());
                    res.push((abs, contents));
                }
            }
            res
        }
    }
}
fn read(path: &AbsPath) -> Option<Vec<u8>> {
    fs::read(path).ok()
}
