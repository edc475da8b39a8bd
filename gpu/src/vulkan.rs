//! Runs a compute shader on a Vulkan device.

use ash::vk;
use std::ffi::CStr;

pub struct Gpu {
    _entry: ash::Entry,
    _instance: ash::Instance,
    device: ash::Device,
    queue: vk::Queue,
    pool: vk::CommandPool,
    memory: vk::PhysicalDeviceMemoryProperties,
}

pub struct Program<'a> {
    gpu: &'a Gpu,
    set_layout: vk::DescriptorSetLayout,
    layout: vk::PipelineLayout,
    pipeline: vk::Pipeline,
    module: vk::ShaderModule,
    kind: vk::DescriptorType,
}

fn ok<T>(r: Result<T, vk::Result>) -> T {
    match r {
        Ok(t) => t,
        Err(e) => {
            eprintln!("harness: vulkan: {e}");
            std::process::exit(2)
        }
    }
}

impl Gpu {
    pub fn new() -> Gpu {
        unsafe {
            let entry = ash::Entry::load().unwrap_or_else(|e| {
                eprintln!("harness: vulkan: {e}");
                std::process::exit(2)
            });
            let app = vk::ApplicationInfo::default().api_version(vk::API_VERSION_1_1);
            let instance = ok(entry.create_instance(&vk::InstanceCreateInfo::default().application_info(&app), None));
            let devices = ok(instance.enumerate_physical_devices());
            let Some(&physical) = devices.iter().find(|d| {
                let f = instance.get_physical_device_features(**d);
                f.shader_float64 != 0
            }) else {
                eprintln!("harness: no Vulkan device with doubles");
                std::process::exit(2)
            };
            let props = instance.get_physical_device_properties(physical);
            eprintln!("device: {}", CStr::from_ptr(props.device_name.as_ptr()).to_string_lossy());
            let families = instance.get_physical_device_queue_family_properties(physical);
            let family = families.iter().position(|f| f.queue_flags.contains(vk::QueueFlags::COMPUTE)).unwrap() as u32;
            let prio = [1.0];
            let q = [vk::DeviceQueueCreateInfo::default().queue_family_index(family).queue_priorities(&prio)];
            let features = vk::PhysicalDeviceFeatures::default().shader_float64(true);
            let device = ok(instance.create_device(physical, &vk::DeviceCreateInfo::default().queue_create_infos(&q).enabled_features(&features), None));
            let queue = device.get_device_queue(family, 0);
            let pool = ok(device.create_command_pool(&vk::CommandPoolCreateInfo::default().queue_family_index(family), None));
            let memory = instance.get_physical_device_memory_properties(physical);
            Gpu { _entry: entry, _instance: instance, device, queue, pool, memory }
        }
    }

    pub fn program(&self, spv: &[u32], uniform: bool) -> Program<'_> {
        let d = &self.device;
        let kind = if uniform { vk::DescriptorType::UNIFORM_BUFFER } else { vk::DescriptorType::STORAGE_BUFFER };
        unsafe {
            let b = [
                vk::DescriptorSetLayoutBinding::default().binding(0).descriptor_type(kind).descriptor_count(1).stage_flags(vk::ShaderStageFlags::COMPUTE),
                vk::DescriptorSetLayoutBinding::default()
                    .binding(1)
                    .descriptor_type(vk::DescriptorType::STORAGE_BUFFER)
                    .descriptor_count(1)
                    .stage_flags(vk::ShaderStageFlags::COMPUTE),
            ];
            let set_layout = ok(d.create_descriptor_set_layout(&vk::DescriptorSetLayoutCreateInfo::default().bindings(&b), None));
            let sl = [set_layout];
            let layout = ok(d.create_pipeline_layout(&vk::PipelineLayoutCreateInfo::default().set_layouts(&sl), None));
            let module = ok(d.create_shader_module(&vk::ShaderModuleCreateInfo::default().code(spv), None));
            let stage = vk::PipelineShaderStageCreateInfo::default().stage(vk::ShaderStageFlags::COMPUTE).module(module).name(c"main");
            let info = [vk::ComputePipelineCreateInfo::default().stage(stage).layout(layout)];
            let pipeline = ok(d.create_compute_pipelines(vk::PipelineCache::null(), &info, None).map_err(|e| e.1))[0];
            Program { gpu: self, set_layout, layout, pipeline, module, kind }
        }
    }

    unsafe fn buffer(&self, usage: vk::BufferUsageFlags, bytes: &[u8]) -> (vk::Buffer, vk::DeviceMemory) {
        let d = &self.device;
        let b = ok(d.create_buffer(&vk::BufferCreateInfo::default().size(bytes.len() as u64).usage(usage), None));
        let r = d.get_buffer_memory_requirements(b);
        let want = vk::MemoryPropertyFlags::HOST_VISIBLE | vk::MemoryPropertyFlags::HOST_COHERENT;
        let ty = (0..self.memory.memory_type_count)
            .find(|i| r.memory_type_bits >> i & 1 == 1 && self.memory.memory_types[*i as usize].property_flags.contains(want))
            .unwrap();
        let m = ok(d.allocate_memory(&vk::MemoryAllocateInfo::default().allocation_size(r.size).memory_type_index(ty), None));
        ok(d.bind_buffer_memory(b, m, 0));
        let p = ok(d.map_memory(m, 0, r.size, vk::MemoryMapFlags::empty())) as *mut u8;
        std::ptr::copy_nonoverlapping(bytes.as_ptr(), p, bytes.len());
        d.unmap_memory(m);
        (b, m)
    }
}

impl Program<'_> {
    /// Runs `groups` invocations and returns the output words.
    pub fn run(&self, input: &[u8], groups: u32, words: usize) -> Vec<u32> {
        let g = self.gpu;
        let d = &g.device;
        unsafe {
            let usage = if self.kind == vk::DescriptorType::UNIFORM_BUFFER { vk::BufferUsageFlags::UNIFORM_BUFFER } else { vk::BufferUsageFlags::STORAGE_BUFFER };
            let (bi, mi) = g.buffer(usage, input);
            let (bo, mo) = g.buffer(vk::BufferUsageFlags::STORAGE_BUFFER, &vec![0xeeu8; words * 4]);
            let sizes = [
                vk::DescriptorPoolSize { ty: self.kind, descriptor_count: 1 },
                vk::DescriptorPoolSize { ty: vk::DescriptorType::STORAGE_BUFFER, descriptor_count: 2 },
            ];
            let dp = ok(d.create_descriptor_pool(&vk::DescriptorPoolCreateInfo::default().max_sets(1).pool_sizes(&sizes), None));
            let sl = [self.set_layout];
            let set = ok(d.allocate_descriptor_sets(&vk::DescriptorSetAllocateInfo::default().descriptor_pool(dp).set_layouts(&sl)))[0];
            let i = [vk::DescriptorBufferInfo { buffer: bi, offset: 0, range: input.len() as u64 }];
            let o = [vk::DescriptorBufferInfo { buffer: bo, offset: 0, range: words as u64 * 4 }];
            d.update_descriptor_sets(
                &[
                    vk::WriteDescriptorSet::default().dst_set(set).dst_binding(0).descriptor_type(self.kind).buffer_info(&i),
                    vk::WriteDescriptorSet::default().dst_set(set).dst_binding(1).descriptor_type(vk::DescriptorType::STORAGE_BUFFER).buffer_info(&o),
                ],
                &[],
            );
            let cb = ok(d.allocate_command_buffers(&vk::CommandBufferAllocateInfo::default().command_pool(g.pool).command_buffer_count(1)))[0];
            ok(d.begin_command_buffer(cb, &vk::CommandBufferBeginInfo::default()));
            d.cmd_bind_pipeline(cb, vk::PipelineBindPoint::COMPUTE, self.pipeline);
            d.cmd_bind_descriptor_sets(cb, vk::PipelineBindPoint::COMPUTE, self.layout, 0, &[set], &[]);
            d.cmd_dispatch(cb, groups, 1, 1);
            ok(d.end_command_buffer(cb));
            let fence = ok(d.create_fence(&vk::FenceCreateInfo::default(), None));
            let cbs = [cb];
            ok(d.queue_submit(g.queue, &[vk::SubmitInfo::default().command_buffers(&cbs)], fence));
            ok(d.wait_for_fences(&[fence], true, 300_000_000_000));
            let p = ok(d.map_memory(mo, 0, words as u64 * 4, vk::MemoryMapFlags::empty())) as *const u32;
            let out = std::slice::from_raw_parts(p, words).to_vec();
            d.unmap_memory(mo);
            d.destroy_fence(fence, None);
            d.free_command_buffers(g.pool, &[cb]);
            d.destroy_descriptor_pool(dp, None);
            for (b, m) in [(bi, mi), (bo, mo)] {
                d.destroy_buffer(b, None);
                d.free_memory(m, None);
            }
            out
        }
    }
}

impl Drop for Program<'_> {
    fn drop(&mut self) {
        let d = &self.gpu.device;
        unsafe {
            d.destroy_pipeline(self.pipeline, None);
            d.destroy_shader_module(self.module, None);
            d.destroy_pipeline_layout(self.layout, None);
            d.destroy_descriptor_set_layout(self.set_layout, None);
        }
    }
}
