//! A second plugin library, loaded next to the first.
use indradb::Json;
use indradb_plugin_host as plugin;
use serde_json::json;

/// Returns its argument inside an array.
struct Wrap;
impl plugin::Plugin for Wrap {
    fn call<'a>(&self, _: &mut (dyn indradb::Transaction<'a> + 'a), arg: Json) -> Result<Json, plugin::Error> {
        Ok(Json::new(json!([(*arg).clone()])))
    }
}
/// Counts the vertices through its transaction.
struct Count;
impl plugin::Plugin for Count {
    fn call<'a>(&self, txn: &mut (dyn indradb::Transaction<'a> + 'a), _: Json) -> Result<Json, plugin::Error> {
        Ok(Json::new(json!(txn.vertex_count())))
    }
}
plugin::register_plugins!(1, "vh2_wrap", || Box::new(crate::Wrap), "vh2_count", || Box::new(crate::Count));
