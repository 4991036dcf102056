pub mod ldlt_mgr;
pub mod lmi0_oracle;
pub mod lmi_old_oracle;
pub mod lmi_oracle;
pub mod lowpass_oracle;
pub mod maxcut_oracle;
pub mod profit_oracle;
pub mod svm_oracle;
