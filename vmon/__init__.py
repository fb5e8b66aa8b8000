"""Runtime monitors for ripplegw (see DESIGN.md)."""
