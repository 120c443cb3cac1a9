//! Simulation scenarios.
#[cfg(feature = "adapt")]
pub mod adapt;
#[cfg(feature = "cell")]
pub mod cell;
#[cfg(feature = "comb")]
pub mod comb;
#[cfg(feature = "elements")]
pub mod elements;
#[cfg(feature = "events")]
pub mod events;
#[cfg(feature = "exec")]
pub mod exec;
#[cfg(feature = "leak")]
pub mod leak;
#[cfg(feature = "lists")]
pub mod lists;
#[cfg(feature = "ui")]
pub mod ui;
#[cfg(feature = "virt")]
pub mod virt;
#[cfg(feature = "xbow")]
pub mod xbow;

pub struct Scenario {
    pub name: &'static str,
    pub property: &'static str,
    pub run: fn(),
    pub stack: usize,
    /// Number of runs in the quick and thorough tiers (0 = fixed history,
    /// only executed by name).
    pub quick: u32,
    pub thorough: u32,
}
const MB: usize = 1 << 20;

pub fn all() -> &'static [Scenario] {
    &[
        #[cfg(feature = "comb")]
        Scenario { name: "comb_results", property: "C03", run: comb::results, stack: 2 * MB, quick: 175_000, thorough: 2_800_000 },
        #[cfg(feature = "comb")]
        Scenario { name: "comb_wakes", property: "C04", run: comb::wakes, stack: 2 * MB, quick: 150_000, thorough: 2_400_000 },
        #[cfg(feature = "comb")]
        Scenario { name: "comb_wakers", property: "C05", run: comb::wakers, stack: 2 * MB, quick: 200_000, thorough: 3_200_000 },
        #[cfg(feature = "ui")]
        Scenario { name: "ui_tree", property: "C01", run: ui::tree, stack: 8 * MB, quick: 125_000, thorough: 2_000_000 },
        #[cfg(feature = "ui")]
        Scenario { name: "ui_wide", property: "C01", run: ui::wide_tree, stack: 8 * MB, quick: 37_500, thorough: 600_000 },
        #[cfg(feature = "ui")]
        Scenario { name: "ui_teardown", property: "C02", run: ui::teardown, stack: 8 * MB, quick: 175_000, thorough: 2_800_000 },
        #[cfg(feature = "ui")]
        Scenario { name: "ui_plain", property: "C02", run: ui::plain, stack: 2 * MB, quick: 15_000, thorough: 240_000 },
        #[cfg(feature = "ui")]
        Scenario { name: "ui_slots", property: "C08", run: ui::slots, stack: 8 * MB, quick: 200_000, thorough: 3_200_000 },
        #[cfg(feature = "ui")]
        Scenario { name: "ui_lists", property: "C09", run: ui::lists, stack: 8 * MB, quick: 250_000, thorough: 4_000_000 },
        #[cfg(feature = "lists")]
        Scenario { name: "diffed_list", property: "C10", run: lists::diffed, stack: 4 * MB, quick: 175_000, thorough: 2_800_000 },
        #[cfg(feature = "lists")]
        Scenario { name: "modeled_list", property: "C11", run: lists::modeled, stack: 4 * MB, quick: 250_000, thorough: 4_000_000 },
        #[cfg(feature = "lists")]
        Scenario { name: "dropdown", property: "C12", run: lists::dropdown, stack: 4 * MB, quick: 375_000, thorough: 6_000_000 },
        #[cfg(feature = "events")]
        Scenario { name: "events", property: "C07", run: events::events, stack: 4 * MB, quick: 350_000, thorough: 5_600_000 },
        #[cfg(feature = "exec")]
        Scenario { name: "exec_core", property: "C06", run: exec::core, stack: 2 * MB, quick: 300_000, thorough: 4_800_000 },
        #[cfg(feature = "exec")]
        Scenario { name: "exec_tasks", property: "C06", run: exec::tasks, stack: 4 * MB, quick: 250_000, thorough: 4_000_000 },
        #[cfg(feature = "virt")]
        Scenario { name: "virtual_list", property: "C13", run: virt::virt, stack: 4 * MB, quick: 137_500, thorough: 2_200_000 },
        #[cfg(feature = "cell")]
        Scenario { name: "reactive_cell", property: "C14", run: cell::cell, stack: 2 * MB, quick: 875_000, thorough: 14_000_000 },
        #[cfg(feature = "cell")]
        Scenario { name: "wakers_arena", property: "C22", run: cell::arena, stack: 2 * MB, quick: 750_000, thorough: 12_000_000 },
        #[cfg(feature = "adapt")]
        Scenario { name: "adapters", property: "C20", run: adapt::adapters, stack: 4 * MB, quick: 875_000, thorough: 14_000_000 },
        #[cfg(feature = "adapt")]
        Scenario { name: "select", property: "C21", run: adapt::selects, stack: 4 * MB, quick: 1_000_000, thorough: 16_000_000 },
        #[cfg(feature = "xbow")]
        Scenario { name: "store_changes", property: "C15", run: xbow::changes, stack: 4 * MB, quick: 137_500, thorough: 2_200_000 },
        #[cfg(feature = "xbow")]
        Scenario { name: "store_bubbling", property: "C16", run: xbow::bubbling, stack: 4 * MB, quick: 137_500, thorough: 2_200_000 },
        #[cfg(feature = "xbow")]
        Scenario { name: "store_loops", property: "C17", run: xbow::loops, stack: 4 * MB, quick: 150_000, thorough: 2_400_000 },
        #[cfg(feature = "xbow")]
        Scenario { name: "store_leftovers", property: "C18", run: xbow::leftovers, stack: 4 * MB, quick: 187_500, thorough: 3_000_000 },
        #[cfg(feature = "xbow")]
        Scenario { name: "store_data", property: "C19", run: xbow::data, stack: 4 * MB, quick: 112_500, thorough: 1_800_000 },
        #[cfg(feature = "leak")]
        Scenario { name: "long_lived", property: "C23", run: leak::leak, stack: 4 * MB, quick: 45_000, thorough: 720_000 },
        #[cfg(feature = "elements")]
        Scenario { name: "elements", property: "C24", run: elements::elements, stack: 4 * MB, quick: 425_000, thorough: 6_800_000 },
    ]
}
pub fn find(name: &str) -> Option<&'static Scenario> {
    all().iter().find(|s| s.name == name)
}
