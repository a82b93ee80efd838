"""Runtime monitoring framework for hat-event (see DESIGN.md)."""
