package vf

// KeysReplaced reports whether the repository's built-in keys are replaced by KeyE0.
const KeysReplaced = false
