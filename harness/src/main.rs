#![allow(clippy::all)]
mod common;
mod air;
mod api;
mod cal;
mod cons;
mod geo;
mod mat;
mod mdl;
mod run;
mod scene;
mod clouds;
mod mfiles;
mod camera;
mod lightpaths;
mod pictures;
mod light;
mod shapes;
mod sky;
mod text;
mod therm;
mod wea;

fn main() {
    let a = common::Args::parse();
    common::start_watchdog(90);
    match a.job.as_str() {
        "calendar" => cal::calendar(&a),
        "period" => cal::period(&a),
        "weather" => wea::weather(&a),
        "epw" => wea::epw(&a),
        "header" => mdl::header(&a),
        "assembly" => mdl::assembly(&a),
        "airflow" => air::airflow(&a),
        "hvac" => air::hvac(&a),
        "cavity" => therm::cavity(&a),
        "zones" => therm::zones(&a),
        "walls" => therm::walls(&a),
        "disc" => cons::disc(&a),
        "glazing" => cons::glazing(&a),
        "api" => api::api(&a),
        "runs" => run::runs(&a),
        "scenes" => scene::scenes(&a),
        "clouds" => clouds::clouds(&a),
        "camera" => camera::camera(&a),
        "mfiles" => mfiles::mfiles(&a),
        "lightpaths" => lightpaths::lightpaths(&a),
        "pictures" => pictures::pictures(&a),
        "light" => light::light(&a),
        "text" => text::text(&a),
        "shapes" => shapes::shapes(&a),
        "loops" => geo::loops(&a),
        "triang" => geo::triang(&a),
        "dome" => sky::dome(&a),
        "perez" => sky::perez(&a),
        "sun" => sky::sun(&a),
        "matrix" => mat::matrix(&a),
        j => {
            eprintln!("unknown job {j}");
            std::process::exit(2)
        }
    }
}
