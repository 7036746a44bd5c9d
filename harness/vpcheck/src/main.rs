mod ast;
mod build;
mod comb;
mod engine;
mod model;
mod par;
mod props;
mod seq;
mod t08;
mod t09;
mod t10;
mod t12;
mod t13;
mod t14;
mod t15;
mod t16;
mod t18;
mod th;
mod tape;
mod val;
mod vol;
mod wins;

fn main() {
  std::panic::set_hook(Box::new(|_| {}));
  let a: Vec<String> = std::env::args().collect();
  let props = props::all();
  let find = |id: &str| props.iter().find(|p| p.id == id);
  let code = match a.get(1).map(|s| s.as_str()) {
    Some("run") => match find(&a[2]) {
      Some(p) => engine::run(p),
      None => 2,
    },
    Some("shard") => {
      let only = if a.len() > 7 { Some((a[6].parse().unwrap(), a[7].parse().unwrap())) } else { None };
      engine::shard(
        find(&a[2]).unwrap(),
        a[3].parse().unwrap(),
        a[4].parse().unwrap(),
        std::path::Path::new(&a[5]),
        only,
      )
    }
    Some("replay") => engine::replay(&props, &a[2]),
    Some("list") => {
      for p in &props {
        println!("{}", p.id)
      }
      0
    }
    _ => {
      eprintln!("usage: vpcheck run ID | replay FILE | list");
      2
    }
  };
  std::process::exit(code);
}
