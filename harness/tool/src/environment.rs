//! The world outside the tool: directories of programs, of packages of the language, and of the packages of a case.
//! Programs run as an unprivileged user who owns nothing but the scratch directory.
use std::{
    ffi::CString,
    fs,
    os::unix::{ffi::OsStrExt, fs::symlink, process::CommandExt},
    path::{Path, PathBuf},
    process::Command,
    sync::OnceLock,
    time::{Duration, Instant},
};

const USER: u32 = 65534;
const TIME_LIMIT: Duration = Duration::from_secs(40);

pub struct Environment {
    pub directory: PathBuf,
    privileged: bool,
}

#[derive(Clone, Debug)]
pub struct Output {
    /// None after a signal or the time limit.
    pub code: Option<i32>,
    pub out: String,
    pub err: String,
    pub timeout: bool,
}

pub fn environment() -> &'static Environment {
    static ENVIRONMENT: OnceLock<Environment> = OnceLock::new();
    ENVIRONMENT.get_or_init(|| {
        let directory = pbt::scratch().join("t");
        let _ = fs::remove_dir_all(&directory);
        let environment = Environment { directory, privileged: unsafe { libc::getuid() } == 0 };
        environment.prepare();
        environment
    })
}

impl Environment {
    fn prepare(&self) {
        let bin = self.bin();
        self.make_directory(&bin);
        let own = std::env::current_exe().unwrap();
        for name in ["tool", "pen"] {
            fs::copy(own.with_file_name(name), bin.join(name)).expect("HARNESS: copying programs");
        }
        for name in crate::programs::NAMES {
            symlink("tool", bin.join(name)).unwrap();
        }
        let repo = pbt::repo_root();
        for package in ["prelude", "ffi"] {
            for entry in fs::read_dir(repo.join("packages").join(package)).unwrap() {
                let path = entry.unwrap().path();
                if path.extension().is_some_and(|extension| extension == "pen" || extension == "json") {
                    self.write(
                        &self.root().join("packages").join(package).join(path.file_name().unwrap()),
                        &fs::read(&path).unwrap(),
                    );
                }
            }
        }
        // The crate of test programs
        let test = repo.join("cmd/test");
        self.write(&self.root().join("cmd/test/Cargo.toml"), &fs::read(test.join("Cargo.toml")).unwrap());
        for entry in fs::read_dir(test.join("src")).unwrap() {
            let path = entry.unwrap().path();
            if path.is_file() {
                self.write(
                    &self.root().join("cmd/test/src").join(path.file_name().unwrap()),
                    &fs::read(&path).unwrap(),
                );
            }
        }
    }

    pub fn bin(&self) -> PathBuf {
        self.directory.join("bin")
    }

    /// Directory of the language
    pub fn root(&self) -> PathBuf {
        self.directory.join("root")
    }

    /// Directory of the case
    pub fn case(&self) -> PathBuf {
        self.directory.join("case")
    }

    /// Where the stand-in for git finds repositories
    pub fn git(&self) -> PathBuf {
        self.directory.join("git")
    }

    /// Where the stand-in for cargo notes what it is given
    pub fn record(&self) -> PathBuf {
        self.directory.join("record")
    }

    fn own(&self, path: &Path) {
        if self.privileged {
            let path = CString::new(path.as_os_str().as_bytes()).unwrap();
            unsafe { libc::lchown(path.as_ptr(), USER, USER) };
        }
    }

    pub fn make_directory(&self, path: &Path) {
        if path.is_dir() {
            return;
        }
        self.make_directory(path.parent().unwrap());
        let _ = fs::create_dir(path);
        self.own(path);
    }

    pub fn write(&self, path: &Path, bytes: &[u8]) {
        assert!(path.starts_with(&self.directory), "HARNESS: write to {path:?}");
        self.make_directory(path.parent().unwrap());
        fs::write(path, bytes).unwrap_or_else(|error| panic!("HARNESS: {path:?}: {error}"));
        self.own(path);
    }

    pub fn write_executable(&self, path: &Path, bytes: &[u8]) {
        use std::os::unix::fs::PermissionsExt;
        self.write(path, bytes);
        fs::set_permissions(path, fs::Permissions::from_mode(0o755)).unwrap();
    }

    /// Starts a case with nothing left from the ones before.
    pub fn clear(&self) {
        for path in [self.case(), self.git(), self.record()] {
            if path.exists() {
                fs::remove_dir_all(&path).unwrap_or_else(|error| panic!("HARNESS: {path:?}: {error}"));
            }
            self.make_directory(&path);
        }
        for entry in fs::read_dir(self.root().join("packages")).unwrap() {
            let path = entry.unwrap().path();
            if path.file_name().is_some_and(|name| name != "prelude" && name != "ffi") {
                fs::remove_dir_all(&path).unwrap();
            }
        }
    }

    pub fn command(&self, directory: &Path, program: &str) -> Command {
        let mut command = Command::new(self.bin().join(program));
        command
            .current_dir(directory)
            .env_clear()
            .env("PATH", format!("{}:/usr/bin:/bin", self.bin().display()))
            .env("HOME", &self.directory)
            .env("PEN_ROOT", self.root())
            .env("TOOL_GIT", self.git())
            .env("TOOL_RECORD", self.record())
            .process_group(0);
        if self.privileged {
            command.uid(USER).gid(USER);
        }
        command
    }

    pub fn run(&self, mut command: Command, input: &str) -> Output {
        let file = |name: &str| self.directory.join(name);
        fs::write(file("in"), input).unwrap();
        let start = Instant::now();
        let mut child = command
            .stdin(fs::File::open(file("in")).unwrap())
            .stdout(fs::File::create(file("out")).unwrap())
            .stderr(fs::File::create(file("err")).unwrap())
            .spawn()
            .unwrap_or_else(|error| panic!("HARNESS: {command:?}: {error}"));
        let (mut code, mut timeout) = (None, false);
        loop {
            match child.try_wait().unwrap() {
                Some(status) => {
                    code = status.code();
                    break;
                }
                None if start.elapsed() > TIME_LIMIT => {
                    timeout = true;
                    unsafe { libc::kill(-(child.id() as i32), libc::SIGKILL) };
                    let _ = child.wait();
                    break;
                }
                None => std::thread::sleep(Duration::from_millis(1)),
            }
        }
        let read = |name| String::from_utf8_lossy(&fs::read(file(name)).unwrap()).into_owned();
        Output { code, out: read("out"), err: read("err"), timeout }
    }
}
